"""C02: every spectrum pspec stores is labelled with the data it was made from."""
import json

import numpy as np
from hera_pspec import PSpecData, conversions

from hv import scene, vis
from hv.checks.c16 import lcdm
from hv.core import Case

ID = "C02"
RULE = ("random datasets, labels, baseline-pairs (reversed, repeated datasets, shuffled rows), windows, extensions and polarization pairs "
        "(some absent); every label, coordinate, weight, sample count and unit of the result is compared with the raw "
        "inputs; distinct = distinct combination of settings and shapes")
REQUIRE = {"times": 300, "labels": 60, "weights": 300, "integrations": 300, "coordinates": 60, "settings": 60,
           "baselines": 60, "skipped-pol": 10, "beam": 15, "refused": 150}
ASSUMPTIONS = ["antenna numbers below 900", "all datasets have the same times per baseline"]


def blp_int(b1, b2):
    n = lambda b: (b[0] + 100) * 1000 + b[1] + 100
    return n(b1) * 1000000 + n(b2)


def pp_int(pp):
    a, b = (vis.POLNUM[p] + 20 for p in pp)
    return a * 100 + b


def unique_labels(labels):
    out = []
    for l in labels:
        c, k = l, 1
        while c in out:
            c = f"{l}.{k}"
            k += 1
        out.append(c)
    return out


def verify(ctx, sc, uvp, ds, polpairs, uspw=None, history="", units="mK", little_h=True, cosmo=None):
    nt = sc.ntimes
    d1, d2 = (sc.dsets[d] for d in sc.pair)
    # baseline-pairs and times
    ctx.equal("coordinates", uvp.Nblpairs, len(sc.b1), "number of baseline-pairs")
    ctx.equal("coordinates", uvp.Nbltpairs, len(uvp.blpair_array), "number of rows")
    ctx.equal("coordinates", uvp.polpair_array.tolist(), [pp_int(p) for p in polpairs], "polarization pairs")
    ctx.equal("coordinates", sorted(set(uvp.blpair_array.tolist())), sorted(blp_int(a, b) for a, b in zip(sc.b1, sc.b2)),
              "baseline-pairs")
    for i, (a, b) in enumerate(zip(sc.b1, sc.b2)):
        r = np.where(uvp.blpair_array == blp_int(a, b))[0]
        ctx.must("times", r.size == nt, f"{r.size} rows for {a} {b}")
        r1, r2 = vis.rows(d1, a)[0], vis.rows(d2, b)[0]
        for nm, d, rr in (("1", d1, r1), ("2", d2, r2)):
            ctx.equal("times", getattr(uvp, f"time_{nm}_array")[r].tolist(), d.time_array[rr].tolist(), f"times {nm}")
            ctx.equal("times", getattr(uvp, f"lst_{nm}_array")[r].tolist(), d.lst_array[rr].tolist(), f"LSTs {nm}")
        ctx.close("times", uvp.time_avg_array[r], (d1.time_array[r1] + d2.time_array[r2]) / 2, rtol=1e-14, what="mean time")
        z = np.exp(1j * d1.lst_array[r1]) + np.exp(1j * d2.lst_array[r2])
        ctx.close("times", np.angle(np.exp(1j * uvp.lst_avg_array[r]) / z), np.zeros(nt), atol=1e-9, what="mean LST")
        for s in range(len(sc.spws)):
            sl = slice(*sc.spws[s])
            for j, pp in enumerate(polpairs):
                n = [vis.POLNUM[p] for p in pp]
                w = [sc.weights(d, bl, p, sl).T for d, bl, p in zip(sc.pair, (a, b), n)]
                ns = [vis.wf(d, bl, p, "nsample")[:, sl] for d, bl, p in zip((d1, d2), (a, b), n)]
                for k in range(2):
                    ctx.close("weights", uvp.wgt_array[s][r][:, :, k, j], w[k], what=f"weights {k + 1}")
                I = [d.integration_time[rr] * (x * y).sum(1) / np.maximum(y.sum(1), 1)
                     for d, rr, x, y in zip((d1, d2), (r1, r2), ns, w)]
                with np.errstate(all="ignore"):
                    want = np.where((I[0] > 0) & (I[1] > 0), 2 / (1 / I[0] + 1 / I[1]), 0.0)
                ctx.close("integrations", uvp.integration_array[s][r][:, j], want, rtol=1e-10, what="integration time")
                ctx.check("integrations", np.all(uvp.nsample_array[s][r][:, j] == 1), "sample count is not one")
    # baselines
    bls = sorted({b if isinstance(b, tuple) else tuple(b) for b in sc.b1 + sc.b2})
    got = {tuple(uvp.bl_to_antnums(int(b))): v for b, v in zip(uvp.bl_array, uvp.bl_vecs)}
    ctx.equal("baselines", sorted(got), bls, "baselines")
    pos = dict(zip(d1.telescope.antenna_numbers.tolist(), d1.telescope.antenna_positions))
    for b in bls:
        ctx.close("baselines", got.get(b, np.nan), pos[b[0]] - pos[b[1]], rtol=1e-10, what=f"vector of {b}")
    # axes
    nu = sc.f0 + sc.df * np.arange(sc.nfreqs)
    f = np.concatenate([nu[slice(*x)] for x in sc.spws])
    ctx.close("coordinates", uvp.freq_array, f, rtol=1e-12, what="frequencies")
    ctx.equal("coordinates", uvp.spw_freq_array.tolist(), [s for s, x in enumerate(sc.spws) for _ in range(x[1] - x[0])], "window of channels")
    dl = np.concatenate([(np.arange(n) - n // 2) / (n * sc.df) for n in sc.nd])
    ctx.close("coordinates", uvp.dly_array, dl, rtol=1e-6, what="delays")
    ctx.equal("coordinates", uvp.spw_dly_array.tolist(), [s for s, n in enumerate(sc.nd) for _ in range(n)], "window of delays")
    ctx.equal("coordinates", [uvp.Nspws, uvp.Npols, uvp.Nspwfreqs, uvp.Nspwdlys, uvp.Nfreqs],
              [len(sc.spws), len(polpairs), f.size, dl.size, np.unique(f).size], "counts")
    ctx.equal("coordinates", uvp.Ntpairs, len(set(zip(uvp.time_1_array, uvp.time_2_array))), "time pairs")
    ctx.equal("coordinates", uvp.Ntimes, len(set(uvp.time_1_array) | set(uvp.time_2_array)), "times")
    ctx.close("coordinates", np.asarray(uvp.channel_width).ravel(), np.full(np.size(uvp.channel_width), sc.df), rtol=1e-9, what="channel width")
    loc = d1.telescope.location
    ctx.close("coordinates", uvp.telescope_location, [getattr(loc, c).to_value("m") for c in "xyz"], rtol=1e-14, what="location")
    # labels of the two datasets
    labels = unique_labels(sc.labels or [f"dset{i}" for i in range(len(sc.dsets))])
    shape = (len(sc.spws), len(uvp.blpair_array), len(polpairs))
    for k, arr in enumerate((uvp.label_1_array, uvp.label_2_array)):
        ctx.check("labels", arr.shape == shape and np.all(np.array(uvp.labels)[arr] == labels[sc.pair[k]]),
                  lambda: f"label {k + 1}: {np.unique(np.array(uvp.labels)[arr])} want {labels[sc.pair[k]]}")
    # settings
    ctx.equal("settings", (uvp.weighting, uvp.taper, uvp.norm), (sc.weighting, sc.taper, sc.norm), "weighting, taper, norm")
    ctx.equal("settings", uvp.vis_units, units, "units")
    ctx.equal("settings", uvp.folded, False, "folded")
    for lab in {labels[d] for d in sc.pair}:
        ctx.check("settings", f"label: {lab}," in uvp.history, "history names the datasets")
    for k, d in enumerate(sc.pair):
        u = sc.dsets[d]
        part = uvp.history.split(f"dataset{k + 1}: ")[1].split(f"dataset{k + 2}: ")[0]
        want = [u.history, f"label: {labels[d]},"] + [json.loads(v) for kk, v in u.extra_keywords.items() if kk in ("filename", "calibration")]
        ctx.check("settings", all(w in part for w in want), lambda: f"history of dataset {k + 1}: {part!r} lacks one of {want}")
    ctx.check("settings", not history or history in uvp.history, "history given by the user is kept")
    if sc.r_params is not None:
        for (d, bl) in ((sc.pair[0], sc.b1[0]), (sc.pair[1], sc.b2[0])):
            k = (d,) + bl + (polpairs[0][0 if d == sc.pair[0] and bl == sc.b1[0] else 1],)
            ctx.equal("settings", uvp.get_r_params().get(k), sc.r_params[k],
                      f"filter parameters of {k}")
    # physical normalization
    if sc.beam is None:
        ctx.equal("beam", uvp.scalar_array.tolist(), np.ones((len(sc.spws), len(polpairs))).tolist(), "scalar without a beam")
        ctx.check("beam", "beam normalization not specified" in uvp.norm_units and not hasattr(uvp, "OmegaP"), "units without a beam")
    else:
        ctx.equal("beam", uvp.norm_units, "h^-3 Mpc^3" if little_h else "Mpc^3", "units")
        if cosmo is not None:
            for x in ("Om_L", "Om_b", "Om_c", "Om_M", "H0"):
                ctx.close("beam", getattr(uvp.cosmo, x), getattr(cosmo, x), rtol=1e-14, what=f"cosmology: {x}")
        ctx.close("beam", uvp.beam_freqs, sc.beam.beam_freqs, what="beam frequencies")
        for j, pp in enumerate(polpairs):
            ctx.close("beam", uvp.OmegaP[:, j], sc.beam.power_beam_int(pp[0]), rtol=1e-12, what=f"OmegaP {pp}")
            ctx.close("beam", uvp.OmegaPP[:, j], sc.beam.power_beam_sq_int(pp[0]), rtol=1e-12, what=f"OmegaPP {pp}")
        ctx.equal("beam", uvp.scalar_array.shape, (len(sc.spws), len(polpairs)), "one scalar per window and polarization")


def labelled(ctx, **kw):
    rng = ctx.rng
    sc = scene.Scene(rng, **kw)
    absent = [p for p in (["xx", "yy", "pI", "pQ"]) if p not in sc.pols]
    present = list(sc.polpairs)
    if absent and rng.random() < 0.4:
        bad = (absent[0], absent[0])
        sc.polpairs.insert(int(rng.integers(len(sc.polpairs) + 1)), bad)
    kw, cos, units = {}, None, "Jy" if sc.beam is None and rng.random() < 0.3 else "mK"
    for i, u in enumerate(sc.dsets):
        u.vis_units = units
        u.history = f"observed as number {i}-{rng.integers(1000)}"
        for k in ("filename", "calibration"):
            if rng.random() < 0.5:
                u.extra_keywords[k] = json.dumps(f"{k}{i}-{rng.integers(1000)}.uvh5")
    if sc.beam is not None and rng.random() < 0.5:
        cos = conversions.Cosmo_Conversions(**lcdm(rng)[0])
        sc.beam.cosmo = cos
    if rng.random() < 0.4:
        kw["little_h"] = bool(rng.random() < 0.4)
    ctx.note(scene=sc.describe(), labels=sc.labels, options=kw, units=units, extra=[u.extra_keywords for u in sc.dsets])
    ds = sc.make()
    if rng.random() < 0.5:
        kw["history"] = "made by user %d" % rng.integers(1000)
    try:
        uvp = sc.run(ds, **kw)
    except scene.Refused:
        return ctx.event("refused")
    if len(present) != len(sc.polpairs):
        ctx.equal("skipped-pol", uvp.polpair_array.tolist(), [pp_int(p) for p in present], "absent polarization is skipped")
    verify(ctx, sc, uvp, ds, present, history=kw.get("history", ""), units=units, little_h=kw.get("little_h", True), cosmo=cos)
    # spectra sit in the row, window and polarization they are labelled with
    for s in range(len(sc.spws)):
        i = int(rng.integers(len(sc.b1)))
        j = int(rng.integers(len(present)))
        E = sc.want(s, i, present[j], float(uvp.scalar_array[s, j]))
        if E.degenerate or not np.isfinite(E.p).all():
            ctx.event("degenerate")
            continue
        r = np.where(uvp.blpair_array == blp_int(sc.b1[i], sc.b2[i]))[0]
        ctx.close("aligned", uvp.data_array[s][r][:, :, j], E.p.T, rtol=1e-7, what="spectrum in its row")
    ctx.sig(sc.weighting, len(sc.spws), len(present), len(sc.b1), sc.pair[0] == sc.pair[1], sc.labels is None,
            sc.beam is not None, any(sum(e) for e in sc.ext), len(present) != len(sc.polpairs), sc.ntimes)
    ctx.sample(scene=sc.describe())


def plain(ctx):
    labelled(ctx, flags=float(ctx.rng.choice([0, 0.05, 0.1])), ntimes=int(ctx.rng.integers(2, 7)))


def ext(ctx):
    labelled(ctx, ext=True, flags=float(ctx.rng.choice([0, 0.1])), ntimes=int(ctx.rng.integers(2, 7)),
             weighting=str(ctx.rng.choice(["identity", "dayenu"])))


def forms(ctx):
    """Equivalent spellings of the same request give the same result."""
    rng = ctx.rng
    sc = scene.Scene(rng, max_spw=1, flags=0.0, wgts=False)
    whole = bool(rng.random() < 0.5)
    if whole:
        sc.spws, sc.nd = [(0, sc.nfreqs)], [sc.nfreqs]
    pp = sc.polpairs[:1]
    sc.polpairs = pp
    ctx.note(scene=sc.describe())
    a = sc.run()
    kw = {}
    p = pp[0]
    num = tuple(vis.POLNUM[x] for x in p)
    alt = [num, [num], (p[0], num[1]), [(num[0], p[1])], p] + ([p[0]] if p[0] == p[1] else [])
    pols = alt[int(rng.integers(len(alt)))]
    b1 = [[x] for x in sc.b1] if rng.random() < 0.4 else list(sc.b1)
    b2 = [[x] for x in sc.b2] if isinstance(b1[0], list) else list(sc.b2)
    kw["spw_ranges"] = sc.spws[0] if rng.random() < 0.5 else list(sc.spws)
    kw["n_dlys"] = sc.nd[0] if rng.random() < 0.5 else list(sc.nd)
    if whole and rng.random() < 0.6:
        kw["spw_ranges"], kw["n_dlys"] = None, None
    base = sc.kwargs()
    base.update(kw)
    mk = dict(sc.mk)
    if sc.labels and len(set(sc.labels)) == len(sc.labels) and rng.random() < 0.7:
        mk["dsets"] = dict(zip(sc.labels, sc.dsets))
        mk["wgts"] = dict(zip(sc.labels, sc.wg))
        mk.pop("labels")
    ds = PSpecData(**mk)
    b = ds.pspec(b1, b2, sc.pair if rng.random() < 0.5 else list(sc.pair), pols, **base)
    ctx.close("forms", b.data_array[0], a.data_array[0], what="data")
    for k in ("blpair_array", "time_1_array", "time_2_array", "dly_array", "freq_array", "polpair_array", "bl_array", "scalar_array"):
        ctx.equal("forms", getattr(b, k).tolist(), getattr(a, k).tolist(), k)
    ctx.equal("forms", list(b.labels), list(a.labels), "labels")
    ctx.sig("forms", str(type(pols)), str(type(b1[0])), str(type(kw["spw_ranges"])), str(type(mk["dsets"])))


def refused(ctx):
    """What cannot be estimated is refused, and the next estimate is not disturbed."""
    rng = ctx.rng
    sc = scene.Scene(rng, flags=0.0, wgts=False, taper="none", with_beam=bool(rng.random() < 0.5), mixed_pol=False)
    ctx.note(scene=sc.describe())
    ds = sc.make()
    first = sc.run(ds)
    n = [b - a for a, b in sc.spws]
    s = int(rng.integers(len(n)))
    pp, b1, b2 = sc.polpairs, list(sc.b1), list(sc.b2)
    go = lambda **k: (lambda: ds.pspec(k.pop("bls1", b1), k.pop("bls2", b2), k.pop("dsets", sc.pair), k.pop("pols", pp),
                                       **dict(base, **k)))
    base = dict(sc.kwargs(), n_dlys=list(sc.nd), spw_ranges=list(sc.spws))
    k1 = (0,) + sc.bls[0] + (sc.pols[0],)
    asks = [("more delays than channels", ValueError, go(n_dlys=[m + 1 + int(rng.integers(3)) if i == s else m for i, m in enumerate(n)])),
            ("delays for too few windows", AssertionError, go(n_dlys=list(sc.nd) + [2])),
            ("extensions for other windows", AssertionError, go(filter_extensions=[(0, 0)] * (len(n) + 1))),
            ("negative extension", AssertionError, go(filter_extensions=[(0, -1)] * len(n))),
            ("window of three numbers", AssertionError, go(spw_ranges=[tuple(x) + (1,) for x in sc.spws])),
            ("lists of different lengths", AssertionError, go(bls2=b2 + b2[:1])),
            ("baselines that are not a list", AssertionError, go(bls1=tuple(b1))),
            ("no baselines", AssertionError, go(bls1=[], bls2=[])),
            ("pair against group", AssertionError, go(bls1=b1, bls2=[[x] for x in b2])),
            ("groups of pairs", NotImplementedError, go(bls1=[b1 + b1], bls2=[b2 + b2])),
            ("one dataset", AssertionError, go(dsets=sc.pair[:1])),
            ("three datasets", AssertionError, go(dsets=sc.pair + sc.pair)),
            ("a dataset as number", AssertionError, go(dsets=0)),
            ("absent dataset", Exception, go(dsets=(0, len(sc.dsets)))),
            ("only absent polarizations", ValueError, go(pols=[(1, 1) if "pI" not in sc.pols else (-5, -5)])),
            ("unknown weighting", Exception, go(input_data_weight="inverse")),
            ("unknown normalization", AssertionError, go(norm="J")),
            ("unknown taper", Exception, go(taper="square root")),
            ("filter parameters missing", (ValueError, AssertionError, TypeError, KeyError), go(input_data_weight="dayenu", r_params={})),
            ("window outside the band", Exception, go(spw_ranges=[(x[0], sc.nfreqs + 1) if i == s else x for i, x in enumerate(sc.spws)])),
            ("delays of a window", ValueError, lambda: ds.set_spw(sc.spws[s], ndlys=n[s] + 1)),
            ("number of delays", ValueError, lambda: ds.set_Ndlys(ds.spw_Nfreqs + 1)),
            ("dataset that does not exist", Exception, lambda: ds.x((len(sc.dsets),) + k1[1:])),
            ("label that does not exist", Exception, lambda: ds.x(("nobody",) + k1[1:])),
            ("polarization pair as list", AssertionError, lambda: ds.validate_pol(sc.pair, list(pp[0])))]
    if sc.with_beam and len(sc.pols) > 1:
        asks.append(("different polarizations with a beam", NotImplementedError, go(pols=[(sc.pols[0], sc.pols[1])])))
    if sc.exact is False:
        asks.append(("exact normalization of a decorrelated estimate", Exception, go(norm="H^-1", exact_norm=True)))
    for i in rng.permutation(len(asks))[:8]:
        what, exc, fn = asks[i]
        ctx.raises("refused", fn, exc, what, key=f"refused:{what}")
        ctx.sig("refused", what)
    # weights other than 0 and 1
    w = [None if v is None else v.copy() for v in sc.wg]
    d = sc.pair[0]
    w[d] = sc.dsets[d].copy()
    w[d].data_array = rng.uniform(0.2, 0.8, w[d].data_array.shape) + 0j
    dw = PSpecData(**dict(sc.mk, wgts=w))
    for _ in range(2):
        ctx.raises("refused", lambda: sc.run(dw), NotImplementedError, "fractional weights", key="refused:fractional")
    dw.set_spw(sc.spws[0])
    for _ in range(2):
        ctx.raises("refused", lambda: dw.Y((d,) + sc.bls[0] + (sc.pols[0],)), NotImplementedError, "fractional weights", key="refused:fractional-Y")
    again = sc.run(ds)
    for i in first.data_array:
        ctx.equal("refused", bool(np.array_equal(first.data_array[i], again.data_array[i])), True, "same estimate after refused requests")


CASES = [Case("refused", refused, 40, 400), Case("plain", plain, 120, 1500), Case("ext", ext, 40, 500), Case("forms", forms, 40, 400)]
