"""C06: preparing datasets changes exactly what it should."""
import copy
import itertools

import numpy as np
from hera_pspec import PSpecData
from pyuvdata import UVCal

from hv import scene, vis
from hv.core import Case

ID = "C06"
RULE = ("random sets of datasets (different days, LST offsets, polarization orders, row orders, units, weights, error sets) taken through "
        "adding, trimming, rephasing, unit conversion, calibration and flag broadcasting; every array is compared with an "
        "independent recomputation; distinct = distinct operation and shape of the set")
REQUIRE = {"trim": 150, "rephase": 150, "convert": 150, "broadcast": 150, "untouched": 600, "labels": 100, "refused": 100,
           "access": 200, "calibrate": 20}
ASSUMPTIONS = ["integrations of a baseline are in time order", "LSTs that should match agree to far better than the tolerance",
               "LST offsets when rephasing are below 0.01 rad (compared to 0.5%)",
               "thresholds are not exactly equal to a fraction of flagged integrations"]
C, K = 299792458.0, 1.380649e-23
PERROW = ("data_array", "flag_array", "nsample_array", "time_array", "lst_array", "ant_1_array", "ant_2_array", "integration_time")
LAT = np.radians(-30.72)


def interleave(rng, u):
    """Shuffle rows, keeping each baseline's integrations in order."""
    o = rng.permutation(u.Nblts)
    key = u.baseline_array[o]
    new = np.empty(u.Nblts, int)
    for b in np.unique(key):
        pos = np.where(key == b)[0]
        new[pos] = np.sort(o[pos])  # rows of one baseline, ascending
    u.reorder_blts(new, run_check=False)


def dataset(rng, ants, bls, nt, nf, pols, f0, df, t0, units="Jy", shuffle=True, flags=0.1):
    u = vis.make_uvd(rng, ants, bls, nt, nf, pols, f0, df, t0=t0, flags=flags, nsamples=True, units=units)
    if shuffle and rng.random() < 0.4:
        interleave(rng, u)
        u.vis_units = units
    return u


class Set:
    def __init__(self, rng, nd=None, nt=None, units=("Jy",), nf=None):
        self.rng = rng
        nd = int(rng.integers(1, 4)) if nd is None else nd
        self.nt = int(rng.integers(2, 7)) if nt is None else nt
        self.nf = int(rng.integers(3, 9)) if nf is None else nf
        pols = [["xx", "yy"], ["xx", "yy", "xy", "yx"], ["pI", "pQ"], ["yy"]][int(rng.integers(4))]
        self.pols = pols
        self.ants = vis.grid_array(rng, 2, 2, jitter=3.0)
        ks = list(self.ants)
        allbl = [p if rng.random() < 0.6 else p[::-1] for p in itertools.combinations_with_replacement(ks, 2)]
        self.bls = [allbl[i] for i in rng.permutation(len(allbl))][:int(rng.integers(2, 6))]
        self.f0, self.df = rng.uniform(110e6, 170e6), rng.uniform(5e4, 4e5)
        self.dsets = []
        start = 2458000.2 + rng.uniform(0, 0.7)
        for d in range(nd):
            bl = [self.bls[i] for i in rng.permutation(len(self.bls))]
            # other days at nearly the same LST: the library's phase is exact to first order in the offset
            t0 = start + 0.99726957 * int(rng.integers(0, 3)) + rng.uniform(0, 1e-3)
            self.dsets.append(dataset(rng, self.ants, bl, self.nt, self.nf, [pols[i] for i in rng.permutation(len(pols))],
                                      self.f0, self.df, t0, str(rng.choice(list(units)))))
        self.wgts = [None] * nd
        self.std = [None] * nd
        errors = rng.random() < 0.4  # the constructor takes errors for all datasets or none
        for d, u in enumerate(self.dsets):
            for lst in (self.wgts, self.std):
                if errors if lst is self.std else rng.random() < 0.4:
                    w = u.copy()
                    w.data_array = rng.random(u.data_array.shape) + 0j
                    lst[d] = w
        self.labels = None if rng.random() < 0.5 else [str(rng.choice(["a", "b", "even"])) for _ in range(nd)]

    def ds(self, **kw):
        return PSpecData(dsets=list(self.dsets), wgts=list(self.wgts), dsets_std=list(self.std),
                         labels=None if self.labels is None else list(self.labels), **kw)

    def snaps(self, objs=None):
        return [[None if u is None else vis.snapshot(u) for u in o] for o in (objs or (self.dsets, self.wgts, self.std))]


def untouched(ctx, objs, snaps, but=(), what=""):
    for o, ss in zip(objs, snaps):
        for u, s in zip(o, ss):
            if u is not None:
                s = {k: v for k, v in s.items() if k not in but}
                ctx.equal("untouched", vis.same(u, s), None, what)


def adding(ctx):
    rng = ctx.rng
    S = Set(rng, nd=int(rng.integers(1, 5)))
    nd = len(S.dsets)
    how = ["list", "tuple", "dict", "steps", "one"][ctx.index % 5]
    snaps = S.snaps()
    ctx.sig(how, nd, S.labels is None)
    lab = S.labels or [f"dset{i}" for i in range(nd)]
    if how in ("list", "tuple"):
        f = list if how == "list" else tuple
        kw = {} if S.labels is None else {"labels": list(S.labels)}
        if any(s is not None for s in S.std):
            kw["dsets_std"] = f(S.std)
        ds = PSpecData(dsets=f(S.dsets), wgts=f(S.wgts), **kw)
    elif how == "dict":
        lab = [f"k{i}" for i in rng.permutation(nd)]
        mk = lambda x: dict(zip(lab, x))
        mix = lambda x: {k: mk(x)[k] for k in rng.permutation(lab).tolist()}  # the names decide, not the order
        ds = PSpecData(dsets=mk(S.dsets), wgts=mix(S.wgts), dsets_std=mix(S.std))
    elif how == "steps":
        ds = PSpecData()
        for d in range(nd):
            ds.add([S.dsets[d]], [S.wgts[d]], dsets_std=[S.std[d]], labels=None if S.labels is None else [S.labels[d]])
            if d < nd - 1 and rng.random() < 0.5:
                ds.set_spw((0, 2))
    else:
        S.dsets, S.wgts, S.std, nd = S.dsets[:1], S.wgts[:1], S.std[:1], 1
        snaps = S.snaps()
        lab = ["solo"]
        ds = PSpecData()
        ds.add(S.dsets[0], S.wgts[0], dsets_std=S.std[0], labels="solo")
    ctx.equal("labels", len(ds.labels), nd, "number of labels")
    ctx.equal("labels", len(set(ds.labels)), nd, f"labels are unique: {ds.labels}")
    for i, l in enumerate(lab):
        ctx.check("labels", ds.labels[i] == l if l not in lab[:i] else ds.labels[i].startswith(l + "."), f"label {ds.labels} of {lab}")
        ctx.equal("labels", ds.dset_idx(ds.labels[i]), i, "label to index")
        ctx.equal("labels", ds.dset_idx(i), i, "index to index")
    ctx.check("labels", all(x is y for x, y in zip(ds.dsets, S.dsets)) and len(ds.dsets) == nd, "datasets in order")
    ctx.check("labels", all(x is y for x, y in zip(ds.wgts, S.wgts)) and len(ds.wgts) == nd, "weights in order")
    ctx.check("labels", all(x is y for x, y in zip(ds.dsets_std, S.std)) and len(ds.dsets_std) == nd, "error sets in order")
    ctx.equal("labels", (ds.Nfreqs, ds.Ntimes, tuple(ds.spw_range), ds.spw_Ndlys), (S.nf, S.nt, (0, S.nf), S.nf), "window")
    ds.validate_datasets(verbose=False)
    # keyed access
    a = int(rng.integers(0, S.nf - 1))
    b = int(rng.integers(a + 1, S.nf + 1))
    ds.set_spw((a, b))
    for _ in range(6):
        d = int(rng.integers(nd))
        bl = S.bls[int(rng.integers(len(S.bls)))]
        if rng.random() < 0.4:
            bl = bl[::-1]
        p = S.pols[int(rng.integers(len(S.pols)))]
        n = vis.POLNUM[p]
        who = [d, ds.labels[d]][int(rng.integers(2))]
        pol = [p, n, p.upper() if p[0] != "p" else p][int(rng.integers(3))]
        key = [(who, bl, pol), (who,) + bl + (pol,)][int(rng.integers(2))]
        ctx.close("access", ds.x(key), vis.x_(S.dsets[d], bl, n)[a:b], what=f"data {key}")
        if S.wgts[d] is None:
            ctx.close("access", ds.w(key), vis.w_(S.dsets[d], bl, n)[a:b], what=f"weights {key}")
        else:
            ctx.close("access", ds.w(key), vis.x_(S.wgts[d], bl, n)[a:b], what=f"weights {key}")
        if S.std[d] is not None:
            ctx.close("access", ds.dx(key), vis.x_(S.std[d], bl, n)[a:b], what=f"errors {key}")
        ctx.equal("access", bool(ds.check_key_in_dset(bl + (p,), d)), True, "key present")
        ctx.equal("access", bool(ds.check_key_in_dset((991, 992, p), d)), False, "key absent")
    for bad in ("nosuch", 1.5, None):
        ctx.raises("refused", lambda: ds.dset_idx(bad), (KeyError, TypeError), f"dataset {bad}")
    d = int(rng.integers(nd))
    p = S.pols[0]
    for key, there in (((p,), True), (p, True), (tuple(S.bls[0]), True), (tuple(S.bls[0]) + (p,), True), ((991, 992), False),
                       (tuple(S.bls[0]) + ("pV",), False), (("pV",), False)):
        ctx.equal("access", bool(ds.check_key_in_dset(key, d)), there, f"is {key} there")
    ctx.raises("refused", lambda: ds.check_key_in_dset((1, 2, p, 4), d), KeyError, "key of four parts")
    txt = str(ds)
    ctx.check("labels", all(str(l) in txt for l in ds.labels), f"summary {txt}")
    # names stay unique, first come first served, however often sets are added
    many, given = PSpecData(), []
    for _ in range(int(rng.integers(2, 6))):
        ls = [str(rng.choice(["a", "a.1", "a.2", "b", "a.1.1", "dset0"])) for _ in range(int(rng.integers(1, 4)))]
        held = list(many.labels or [])
        auto = rng.random() < 0.2
        many.add([S.dsets[0]] * len(ls), [None] * len(ls), labels=None if auto else (ls[0] if len(ls) == 1 else list(ls)))
        if auto:
            ls = [f"dset{len(held) + i}" for i in range(len(ls))]
        given += ls
        ctx.equal("labels", list(many.labels[:len(held)]), held, "earlier names stay")
        for i in range(len(held), len(given)):
            l = many.labels[i]
            ctx.check("labels", l == given[i] if given[i] not in many.labels[:i] else (l.startswith(given[i] + ".") and l[len(given[i]) + 1:].isdigit()),
                      f"names {many.labels} given {given}")
    ctx.equal("labels", (len(set(many.labels)), len(many.labels)), (len(given), len(given)), "names are unique")
    for i, l in enumerate(many.labels):
        ctx.equal("labels", many.dset_idx(l), i, "label to index")
    # units
    ctx.equal("labels", ds.units()[0], S.dsets[0].vis_units, "units")
    untouched(ctx, (S.dsets, S.wgts, S.std), snaps, what="adding")
    # what cannot go together
    u = S.dsets[0]
    before = (list(ds.dsets), list(ds.wgts), list(ds.dsets_std), list(ds.labels))
    bad = [((lambda: ds.add([u, u], [None])), "weights missing"), ((lambda: ds.add([u], [None], labels=["q", "r"])), "labels"),
           ((lambda: ds.add(["x"], [None])), "not data"), ((lambda: ds.add([u], [3.0])), "not weights"),
           ((lambda: ds.add([u], [None], dsets_std=[7])), "not errors"), ((lambda: ds.add({"z": u}, [None])), "mixed"),
           ((lambda: ds.add({"z": u}, {"z": None}, labels=["z"])), "labels of a dict"),
           ((lambda: ds.add([u], [None], cals=["c"])), "not calibration"), ((lambda: ds.add([u], [None], dsets_std=[u, u])), "errors")]
    for f, w in bad:
        ctx.raises("refused", f, (AssertionError, TypeError, ValueError), w)
    after = (ds.dsets, ds.wgts, ds.dsets_std, ds.labels)
    ctx.check("refused", all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(before, after)), "unchanged by refused additions")
    # inconsistent shapes
    kind = int(rng.integers(5))
    o = u.copy()
    if kind == 0:
        o.select(freq_chans=np.arange(S.nf - 1))
    elif kind == 1:
        o.select(times=np.unique(o.time_array)[:-1])
    elif kind == 3:
        o.channel_width = o.channel_width * 1.1
    elif kind == 4:
        o.phase_center_catalog.update({77: dict(o.phase_center_catalog[next(iter(o.phase_center_catalog))])})
    else:
        o.phase_center_catalog[next(iter(o.phase_center_catalog))]["cat_type"] = "unknown"
    # wherever the odd one is
    row = [u] * int(rng.integers(1, 4))
    row.insert(int(rng.integers(len(row) + 1)), o)
    bs = PSpecData(dsets=row, wgts=[None] * len(row))
    ctx.raises("refused", lambda: bs.validate_datasets(verbose=False), ValueError, f"inconsistent {kind}")
    bs = PSpecData(dsets=[u, u], wgts=[None, None])
    bs.validate_datasets(verbose=False)
    getattr(bs, ["wgts", "dsets_std", "labels"][int(rng.integers(3))]).pop()
    ctx.raises("refused", lambda: bs.validate_datasets(verbose=False), ValueError, "lists of different lengths")


def trimming(ctx):
    rng = ctx.rng
    nd = int(rng.integers(2, 4))
    S = Set(rng, nd=nd, nt=int(rng.integers(3, 9)))
    step = float(np.round(rng.uniform(1e-3, 5e-3), 4))
    l0 = float(np.round(rng.uniform(0, 6), 2))
    if rng.random() < 0.3:
        l0 = float(np.round(2 * np.pi - step * rng.integers(1, S.nt + 1), 4))
    offs = [0] + [int(rng.integers(-2, 3)) for _ in range(nd - 1)]
    if max(offs) - min(offs) >= S.nt:
        return ctx.event("no-overlap")
    lab = []
    for u, w, s, o in zip(S.dsets, S.wgts, S.std, offs):
        ts = np.unique(u.time_array)
        k = np.searchsorted(ts, u.time_array) + o
        lst = np.round(l0 + step * k, 4)
        lst = lst + rng.choice([0, 1e-9, -1e-9])
        lab.append(k)
        for x in (u, w, s):
            if x is not None:
                x.lst_array = lst % (2 * np.pi) if lst.max() < 2 * np.pi else lst
    keep = set(lab[0]).intersection(*map(set, lab))
    old = [[None if u is None else u.copy() for u in o] for o in (S.dsets, S.wgts, S.std)]
    ds = S.ds()
    ctx.note(offs=offs, nt=S.nt, l0=l0, step=step)
    ds.trim_dset_lsts()
    ctx.sig(nd, tuple(offs), S.nt, any(w is not None for w in S.wgts), any(w is not None for w in S.std))
    ctx.equal("trim", ds.Ntimes, len(keep), "number of times")
    for o, xs in zip(old, (ds.dsets, ds.wgts, ds.dsets_std)):
        for d, (u, v) in enumerate(zip(o, xs)):
            if u is None:
                ctx.equal("trim", v, None)
                continue
            m = np.isin(lab[d], list(keep))
            for a in ("data_array", "flag_array", "nsample_array", "time_array", "lst_array", "ant_1_array", "ant_2_array", "integration_time"):
                want = getattr(u, a)[m]
                got = getattr(v, a)
                ctx.check("trim", got.shape == want.shape and np.array_equal(got, want), f"{a} of {d}: {got.shape} {want.shape}")
            ctx.equal("untouched", (v.Npols, v.Nfreqs, v.vis_units), (u.Npols, u.Nfreqs, u.vis_units))
    ctx.equal("labels", (len(ds.dsets), len(set(ds.labels))), (nd, nd))
    # a grid with another spacing is refused
    T = Set(rng, nd=2, nt=S.nt)
    T.dsets[1].lst_array = T.dsets[1].lst_array[0] + 1.5 * (T.dsets[1].lst_array - T.dsets[1].lst_array[0])
    if S.nt > 2:
        snaps = T.snaps()
        td = T.ds()
        ctx.raises("refused", lambda: td.trim_dset_lsts(), ValueError, "different grid")
        untouched(ctx, (T.dsets, T.wgts, T.std), snaps, what="refused trimming")


def phase(bl, ants, l_from, l_to, freqs):
    """Factor that re-points from the zenith at l_from to the zenith of l_to."""
    b = ants[bl[1]] - ants[bl[0]]  # ENU, metres (a source at s gives exp(+2 pi i nu b.s/c))
    H = l_from - l_to  # hour angle of the new pointing
    s = np.array([-np.cos(LAT) * np.sin(H), np.sin(LAT) * np.cos(LAT) * (1 - np.cos(H)),
                  np.sin(LAT)**2 + np.cos(LAT)**2 * np.cos(H) - 1])
    return np.exp(-2j * np.pi * freqs[None, :] / C * (b @ s)[:, None])


def rephasing(ctx):
    rng = ctx.rng
    S = Set(rng, nd=int(rng.integers(2, 4)))
    nd = len(S.dsets)
    if rng.random() < 0.3:  # LSTs wrap around
        u = S.dsets[0]
        sh = (2 * np.pi - u.lst_array[u.time_array == np.unique(u.time_array)[S.nt // 2]][0]) / (2 * np.pi) * 0.99726957
        for u in S.dsets:
            u.time_array = u.time_array + sh
            u.set_lsts_from_time_array()
    if rng.random() < 0.4:  # times that are not evenly spaced, each set in its own way
        for u in S.dsets:
            ts = np.unique(u.time_array)
            sh = rng.uniform(0, 3e-4, len(ts)).cumsum()
            u.time_array = u.time_array + sh[np.searchsorted(ts, u.time_array)]
            u.set_lsts_from_time_array()
    ref = int(rng.integers(nd))
    old = [u.copy() for u in S.dsets]
    snaps = S.snaps()
    grid = {}
    u = old[ref]
    for bl in S.bls:
        r, _ = vis.rows(u, bl)
        for k, t in enumerate(np.argsort(u.time_array[r])):
            grid[k] = u.lst_array[r][t]
    ds = S.ds()
    inplace = bool(rng.random() < 0.6)
    who = [ref, ds.labels[ref]][int(rng.integers(2))]
    ctx.note(nd=nd, ref=ref, bls=S.bls, pols=[u.polarization_array.tolist() for u in old], nt=S.nt, inplace=inplace)
    out = ds.rephase_to_dset(who, inplace=inplace)
    ctx.sig(nd, ref, inplace, len(S.pols), S.nt)
    if not inplace:
        untouched(ctx, (S.dsets, S.wgts, S.std), snaps, what="copying rephase")
        res = out
    else:
        ctx.equal("rephase", out, None, "in place")
        res = ds.dsets
    ctx.equal("rephase", len(res), nd)
    for d, (v, u) in enumerate(zip(res, old)):
        # rows may be reordered as a whole
        o, q = np.lexsort((u.time_array, u.baseline_array)), np.lexsort((v.time_array, v.baseline_array))
        s = {k: x[o] if k in PERROW else x for k, x in vis.snapshot(u).items() if k != "data_array"}
        t = {k: x[q] if k in PERROW else x for k, x in vis.snapshot(v).items()}
        ctx.equal("untouched", next((k for k in s if not np.array_equal(s[k], t[k])), None), None, f"rephasing dataset {d} (reference {ref})")
        if d == ref:
            ctx.check("untouched", np.array_equal(u.data_array[o], v.data_array[q]), "reference data")
            continue
        for bl in S.bls:
            r, _ = vis.rows(u, bl)
            rv, _ = vis.rows(v, bl)
            r, rv = r[np.argsort(u.time_array[r])], rv[np.argsort(v.time_array[rv])]
            bl = (int(u.ant_1_array[r[0]]), int(u.ant_2_array[r[0]]))
            to = np.array([grid[k] for k in range(S.nt)])
            ph = phase(bl, {k: x for k, x in S.ants.items()}, u.lst_array[r], to, u.freq_array)
            ctx.close("rephase", v.data_array[rv], u.data_array[r] * ph[:, :, None], rtol=5e-3, what=f"dataset {d} {bl}")
    untouched(ctx, (S.wgts, S.std), snaps[1:], what="rephasing weights")
    # once is enough: nothing drifts any more
    if inplace:
        s2 = S.snaps()
        ds.rephase_to_dset(int(rng.integers(nd)))
        untouched(ctx, (S.dsets, S.wgts, S.std), s2, what="second rephasing")


def tracking(ctx):
    """A source that each dataset sees at its own zenith moves to where the reference sees it."""
    rng = ctx.rng
    S = Set(rng, nd=2, units=("Jy",))
    ds = S.ds()
    u0, u1 = S.dsets
    amp = rng.normal(size=S.nt) + 1j * rng.normal(size=S.nt)
    t0, t1 = np.unique(u0.time_array), np.unique(u1.time_array)
    l0 = np.array([u0.lst_array[u0.time_array == t][0] for t in t0])
    for i in range(u1.Nblts):
        k = int(np.searchsorted(t1, u1.time_array[i]))
        bl = (int(u1.ant_1_array[i]), int(u1.ant_2_array[i]))
        b = S.ants[bl[1]] - S.ants[bl[0]]
        H = u1.lst_array[i] - l0[k]
        n = np.array([-np.cos(LAT) * np.sin(H), np.cos(LAT) * np.sin(LAT) * (1 - np.cos(H)), np.sin(LAT)**2 + np.cos(LAT)**2 * np.cos(H)])
        u1.data_array[i] = (amp[k] * np.exp(2j * np.pi * u1.freq_array / C * (b @ n)))[:, None]
    ds.rephase_to_dset(0)
    for i in range(u1.Nblts):
        k = int(np.searchsorted(t1, u1.time_array[i]))
        bl = (int(u1.ant_1_array[i]), int(u1.ant_2_array[i]))
        b = S.ants[bl[1]] - S.ants[bl[0]]
        want = amp[k] * np.exp(2j * np.pi * u1.freq_array / C * b[2])
        ctx.close("rephase", u1.data_array[i], np.repeat(want[:, None], u1.Npols, 1), rtol=5e-3, what=f"source at the reference zenith, {bl}")
    ctx.sig("track", S.nt, len(S.bls))


def converting(ctx):
    rng = ctx.rng
    S = Set(rng, units=("Jy", "Jy", "mK", "JY", "jy"))
    f = np.linspace(100e6, 200e6, 50)
    O = {p: rng.uniform(0.1, 0.5) * (f / 150e6) ** rng.uniform(-2, 0) for p in S.pols}
    from hera_pspec import pspecbeam
    beam = pspecbeam.PSpecBeamFromArray({k: v.copy() for k, v in O.items()}, {k: v / 2 for k, v in O.items()}, f)
    own = rng.random() < 0.5
    ds = S.ds(beam=beam) if own else S.ds()
    if rng.random() < 0.3:
        ds.set_spw((0, 2))
    old = [[None if u is None else u.copy() for u in o] for o in (S.dsets, S.wgts, S.std)]
    ctx.sig(len(S.dsets), tuple(u.vis_units for u in S.dsets), own, any(s is not None for s in S.std))
    for n in range(int(rng.integers(1, 3))):  # a second conversion changes nothing
        ds.Jy_to_mK() if own else ds.Jy_to_mK(beam=beam)
    for which, (o, xs) in enumerate(zip(old, (ds.dsets, ds.wgts, ds.dsets_std))):
        for u, v in zip(o, xs):
            if u is None:
                continue
            s = vis.snapshot(u)
            if which != 1 and u.vis_units.upper() == "JY":
                s["vis_units"] = "mK"
                want = s.pop("data_array").copy()
                for j, p in enumerate(u.polarization_array):
                    name = {n: k for k, n in vis.POLNUM.items()}[p]
                    Om = np.interp(u.freq_array, f, O[name])
                    want[:, :, j] *= 1e-26 * C**2 / (2 * K * u.freq_array**2 * Om) * 1e3
                ctx.close_rel("convert", v.data_array, want, rtol=2e-3, what=["data", "", "errors"][which])
            else:
                ctx.check("convert", True)
            ctx.equal("untouched", vis.same(v, s), None, f"conversion {which}")
    if not own:
        fresh = Set(rng)
        snaps = fresh.snaps()
        fd = fresh.ds()
        ctx.raises("refused", lambda: fd.Jy_to_mK(), AssertionError, "no beam")
        ctx.raises("refused", lambda: fd.Jy_to_mK(beam="x"), AssertionError, "not a beam")
        untouched(ctx, (fresh.dsets, fresh.wgts, fresh.std), snaps, what="refused conversion")
    # the units reported are those of the data
    ctx.equal("labels", ds.units(little_h=bool(own))[0], ds.dsets[0].vis_units)
    if own:
        ctx.equal("labels", (ds.units()[1], ds.units(little_h=False)[1]), ("h^-3 Mpc^3", "Mpc^3"), "volume units")


def broadcast(F, spws, thresh, unflag):
    """F: (Ntimes, Nfreqs) of one baseline and polarization."""
    F = F.copy()
    nt, nf = F.shape
    for a, b in spws:
        if unflag:
            F[:, a:b] = False
            continue
        G = F.copy()
        live = [t for t in range(nt) if not G[t].all()]
        for c in range(a, b):
            if live and sum(G[t, c] for t in live) / len(live) > thresh:
                F[:, c] = True
                G[:, c] = False
        for t in range(nt):
            if G[t, a:b].any():
                F[t, a:b] = True
    return F


def flagging(ctx):
    rng = ctx.rng
    S = Set(rng, nt=int(rng.integers(2, 9)), nf=int(rng.integers(10, 30)) if rng.random() < 0.3 else None)
    for u in S.dsets:
        u.flag_array[:] = rng.random(u.flag_array.shape) < rng.choice([0.02, 0.1, 0.3])
        if rng.random() < 0.5:
            u.flag_array[rng.random(u.Nblts) < 0.3] = True
        if rng.random() < 0.3:  # nearly all of an integration
            u.flag_array[np.ix_(rng.random(u.Nblts) < 0.3, np.arange(S.nf) != rng.integers(S.nf))] = True
        if rng.random() < 0.5:
            u.flag_array[:, rng.random(u.Nfreqs) < 0.2] = True
    snaps = S.snaps()
    old = [u.flag_array.copy() for u in S.dsets]
    thresh = float(rng.choice([0.0, 0.07, 0.13, 0.23, 0.37, 0.55, 0.99]))
    unflag = bool(rng.random() < 0.2)
    spws, lo = [], 0
    while lo < S.nf and len(spws) < 3:
        a = int(rng.integers(lo, S.nf))
        b = int(rng.integers(a + 1, S.nf + 1))
        spws.append((a, b))
        lo = b
    if rng.random() < 0.2:
        spws = None
    elif rng.random() < 0.5:
        spws = [spws[i] for i in rng.permutation(len(spws))]
    ds = S.ds()
    sel = (0, int(rng.integers(1, S.nf + 1)))
    if rng.random() < 0.5:
        ds.set_spw(sel)
    sel = (tuple(ds.spw_range), ds.spw_Ndlys)
    ctx.note(spws=spws, thresh=thresh, unflag=unflag)
    ds.broadcast_dset_flags(spw_ranges=copy.copy(spws), time_thresh=thresh, unflag=unflag)
    ctx.sig(str(spws), thresh, unflag, S.nt)
    win = spws or [(0, S.nf)]
    ins = np.zeros(S.nf, bool)
    for a, b in win:
        ins[a:b] = True
    for d, u in enumerate(S.dsets):
        for bl in S.bls:
            r, _ = vis.rows(u, bl)
            for j in range(u.Npols):
                want = broadcast(old[d][r, :, j], win, thresh, unflag)
                got = u.flag_array[r, :, j]
                ctx.check("broadcast", np.array_equal(got, want), lambda: f"flags of {bl} {j}: {got.astype(int)} want {want.astype(int)} from {old[d][r, :, j].astype(int)}")
                if not unflag:
                    ctx.check("broadcast", (got | ~old[d][r, :, j]).all(), "no flag is lost")
                    for a, b in win:
                        g = got[:, a:b]
                        ctx.check("broadcast", np.array_equal(g, g.all(1)[:, None] | g.all(0)[None]), "separable")
        ctx.check("untouched", np.array_equal(u.flag_array[:, ~ins], old[d][:, ~ins]), "flags outside")
    untouched(ctx, (S.dsets,), snaps[:1], but=("flag_array",), what="broadcasting")
    untouched(ctx, (S.wgts, S.std), snaps[1:], what="broadcasting")
    ctx.equal("untouched", (tuple(ds.spw_range), ds.spw_Ndlys), sel, "selected window")


def calibrating(ctx):
    rng = ctx.rng
    S = Set(rng, nd=int(rng.integers(1, 3)))
    if "xy" in S.pols or S.pols[0][0] == "p":
        S.pols = ["xx", "yy"]
        nd = len(S.dsets)
        S.dsets = [dataset(rng, S.ants, S.bls, S.nt, S.nf, ["xx", "yy"], S.f0, S.df, 2458000.3 + d) for d in range(nd)]
        S.std, S.wgts = [None] * nd, [None] * nd
    nd = len(S.dsets)
    if rng.random() < 0.5:
        S.std = [u.copy() for u in S.dsets]
        for s in S.std:
            s.data_array = rng.random(s.data_array.shape) + 0.1 + 0j
    cals = []
    for d, u in enumerate(S.dsets):
        if rng.random() < 0.25:
            cals.append(None)
            continue
        c = UVCal.new(gain_convention=["divide", "multiply"][int(rng.random() < 0.4)], cal_style="redundant", cal_type="gain",
                      jones_array=np.array([-5, -6]), freq_array=u.freq_array, channel_width=u.channel_width, time_array=np.unique(u.time_array),
                      telescope=u.telescope, integration_time=10.0, empty=True)
        sh = (len(c.ant_array), S.nf, S.nt, 2)
        c.gain_array = rng.uniform(0.5, 2, sh) * np.exp(1j * rng.uniform(-3, 3, sh))
        c.flag_array = rng.random(sh) < 0.1
        if rng.random() < 0.5:
            c.extra_keywords["filename"] = f'"cal{d}.fits"'
        cals.append(c)
    old = [u.copy() for u in S.dsets]
    olds = [s if s is None else s.copy() for s in S.std]
    prop = bool(rng.random() < 0.6)
    snaps = S.snaps()
    ds = PSpecData()
    if rng.random() < 0.4:
        nm = [f"n{d}" for d in range(nd)]
        mix = lambda x: {nm[i]: x[i] for i in rng.permutation(nd)}
        ds.add(dict(zip(nm, S.dsets)), mix(S.wgts), dsets_std=None if S.std[0] is None else mix(S.std), cals=mix(cals), cal_flag=prop)
    else:
        ds.add(list(S.dsets), list(S.wgts), dsets_std=None if S.std[0] is None else list(S.std), cals=list(cals), cal_flag=prop)
    ctx.sig("cal", nd, tuple(c is None for c in cals), prop)
    for d, (u, o, c) in enumerate(list(zip(ds.dsets, old, cals)) + [x for x in zip(ds.dsets_std, olds, cals) if x[0] is not None]):
        if c is not None:
            ctx.equal("calibrate", u.extra_keywords.get("calibration"), c.extra_keywords.get("filename", '""'), "name of the calibration")
        if c is None:
            untouched(ctx, ([u],), [[vis.snapshot(o)]], what="no calibration")
            continue
        ants, ts = c.ant_array.tolist(), np.unique(o.time_array)
        want, fl, bad = o.data_array.copy(), o.flag_array.copy(), np.zeros(o.data_array.shape, bool)
        for i in range(o.Nblts):
            k = int(np.argmin(np.abs(ts - o.time_array[i])))
            a, b = ants.index(o.ant_1_array[i]), ants.index(o.ant_2_array[i])
            for j, p in enumerate(o.polarization_array):
                q = c.jones_array.tolist().index(int(p))
                g = c.gain_array[a, :, k, q] * np.conj(c.gain_array[b, :, k, q])
                want[i, :, j] = want[i, :, j] / g if c.gain_convention == "divide" else want[i, :, j] * g
                if prop:
                    fl[i, :, j] |= c.flag_array[a, :, k, q] | c.flag_array[b, :, k, q]
                bad[i, :, j] = c.flag_array[a, :, k, q] | c.flag_array[b, :, k, q]
        ctx.close("calibrate", u.data_array[~bad], want[~bad], rtol=1e-6, what="calibrated data")
        ctx.check("calibrate", np.array_equal(u.flag_array, fl), "flags")
        ctx.equal("untouched", vis.same(u, {k: v for k, v in vis.snapshot(o).items() if k in (
            "nsample_array", "time_array", "lst_array", "ant_1_array", "ant_2_array", "polarization_array", "freq_array")}), None, "calibration")
    untouched(ctx, (S.wgts,), snaps[1:2], what="calibration and weights")


CASES = [Case("adding", adding, 40, 500), Case("trimming", trimming, 40, 500), Case("rephasing", rephasing, 40, 500),
         Case("tracking", tracking, 15, 150), Case("converting", converting, 60, 600), Case("flagging", flagging, 60, 800),
         Case("calibrating", calibrating, 24, 240)]
