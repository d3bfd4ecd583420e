"""C11: incoherent averages are the stated weighted means, with propagated errors."""
import copy

import numpy as np

from hera_pspec import grouping, uvpspec_utils as uu
from hv import gen, sel
from hv.core import Case

ID = "C11"
RULE = ("random objects (ragged, multi-window, folded, with covariances, statistics, binned or exact windows, "
        "fully flagged rows) are averaged over random baseline-pair groups with random weights and/or over time, "
        "weighted by integration time or by an error field, and every output number is compared with an "
        "independently computed weighted sum; distinct = distinct option x content combination")
REQUIRE = {"average": 2000, "average-metadata": 300, "input-unchanged": 60, "multiplicity": 15,
           "flagged-excluded": 30, "scaling": 10, "bad-groups-refused": 20}
ASSUMPTIONS = ["the rows of baseline pairs averaged together list corresponding times in the same order",
               "error fields are real", "numbers are compared to 1e-9 of the largest entry"]

FIELDS = ["data", "wgts", "integ", "cov_real", "cov_imag", "window"]


def rows_of(u, blp):
    """Row indices of one baseline-pair, in storage order."""
    return np.where(u.blpair_array == blp)[0]


def cells(u):
    """{(spw, pol): {blp: {field: array over rows}}} through the public accessors."""
    out = {}
    for s in range(u.Nspws):
        for k, pp in enumerate(u.polpair_array):
            d = {}
            for blp in dict.fromkeys(u.blpair_array.tolist()):
                key = (s, int(blp), int(pp))
                c = {"data": u.get_data(key), "wgts": u.get_wgts(key), "integ": u.get_integrations(key),
                     "nsample": u.get_nsamples(key)}
                if hasattr(u, "cov_array_real"):
                    c["cov_real"], c["cov_imag"] = u.get_cov(key), u.get_cov(key, component="imag")
                if hasattr(u, "window_function_array"):
                    c["window"] = u.get_window_function(key)
                for st in getattr(u, "stats_array", {}):
                    c["stat:" + st] = u.get_stats(st, key)
                r = rows_of(u, blp)
                c["label_1"] = [str(u.labels[i]) for i in u.label_1_array[s, r, k]]
                c["label_2"] = [str(u.labels[i]) for i in u.label_2_array[s, r, k]]
                d[int(blp)] = {a: np.array(v) for a, v in c.items()}
            out[s, int(pp)] = d
    return out


def weights(c, err):
    """(T, Nd) or (T, 1) weight of each spectrum."""
    if err is None:
        return (c["integ"] ** 2 * c["nsample"])[:, None]
    s = np.real(c["stat:" + err])
    with np.errstate(all="ignore"):
        w = 1.0 / s**2
    return np.where(np.isfinite(w), w, 0.0)


def expected(cl, groups, mult, time_avg, err, stats, normalize=True):
    """List over groups of {field: (T or 1, ...)} of one window and polarization."""
    out = []
    for g, m in zip(groups, mult):
        m = np.array(m, float)
        if normalize:
            m = m * len(m) / m.sum()
        acc = {}
        W = 0
        for b, mm in zip(g, m):
            if mm <= 0:
                continue
            c = cl[b]
            w = weights(c, err)
            red = (lambda a: a.sum(axis=0, keepdims=True)) if time_avg else (lambda a: a)
            add = lambda f, v: acc.__setitem__(f, acc.get(f, 0) + mm * red(v))
            W = W + mm * red(w)
            add("data", c["data"] * w)
            add("wgts", c["wgts"] * w[:, :1, None])
            add("integ", c["integ"][:, None] * w)
            add("nsample", c["nsample"])
            if "window" in c:
                add("window", c["window"] * w.reshape(w.shape + (1,) * (c["window"].ndim - 2)))
            for f in ("cov_real", "cov_imag"):
                if f in c:
                    add(f, c[f] * w[:, :, None] * w[:, None, :])
            for st in stats:
                s2 = np.real(c["stat:" + st]) ** 2
                add("stat:" + st, np.where(w == 0, 0.0, s2 * w**2))
        Ws = np.where(W == 0, np.inf, W)
        r = {"data": acc["data"] / Ws, "wgts": acc["wgts"] / Ws[:, :1, None],
             "integ": (acc["integ"] / Ws)[:, 0], "nsample": acc["nsample"], "_W": W}
        if "window" in acc:
            r["window"] = acc["window"] / Ws.reshape(Ws.shape + (1,) * (acc["window"].ndim - 2))
        for f in ("cov_real", "cov_imag"):
            if f in acc:
                r[f] = acc[f] / Ws[:, :, None] / Ws[:, None, :]
        for st in stats:
            v = np.sqrt(acc["stat:" + st]) / Ws
            r["stat:" + st] = np.where(np.broadcast_to(W, v.shape) == 0, np.inf, v)
        out.append(r)
    return out


def make(rng, **kw):
    kw.setdefault("stats", None)
    kw.setdefault("nblp", int(rng.integers(1, 6)))
    kw.setdefault("ragged", False)
    kw.setdefault("order", str(rng.choice(["blp", "time"])))
    kw.setdefault("odd_times", True)
    kw.setdefault("exact", bool(rng.random() < 0.2))
    u = gen.make_uvp(rng, flags=bool(rng.random() < 0.4), wrap_lst=bool(rng.random() < 0.3), **kw)
    realstats(u)
    return u


def realstats(u):
    for st in getattr(u, "stats_array", {}).values():
        for s in st:
            st[s] = st[s].real.copy()


def rand_groups(rng, u, full):
    blps = [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]
    rng.shuffle(blps)
    ng = int(rng.integers(1, len(blps) + 1))
    cut = np.sort(rng.choice(np.arange(1, len(blps)), ng - 1, replace=False)) if ng > 1 else []
    groups = [list(map(int, g)) for g in np.split(np.array(blps), cut)]
    if not full and len(groups) > 1 and rng.random() < 0.5:
        groups = groups[:-1]
    # a pair may appear again later in another group (documented, with a warning)
    if rng.random() < 0.15 and len(groups) > 1:
        groups[0].append(groups[1][0])
    return groups


def average(ctx):
    rng = ctx.rng
    time_avg = bool(rng.random() < 0.5)
    u = make(rng, ragged=bool(time_avg and rng.random() < 0.4))
    if rng.random() < 0.2 and not u.exact_windows:
        u.fold_spectra()
    stats, err = [], None
    kw = {}
    if hasattr(u, "stats_array"):
        if rng.random() < 0.6:
            stats = [str(s) for s in rng.choice(list(u.stats_array), int(rng.integers(1, len(u.stats_array) + 1)), replace=False)]
            kw["error_field"] = stats if len(stats) > 1 or rng.random() < 0.5 else stats[0]
        if rng.random() < 0.4:
            err = "P_N"
            kw["error_weights"] = err
            if rng.random() < 0.4:  # some spectra carry no information
                a = u.stats_array["P_N"]
                for s in a:
                    a[s][rng.random(a[s].shape) < 0.15] = np.inf
            stats = sorted(set(stats) | {err})
    blps = [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]
    usegroups = rng.random() < 0.8
    if usegroups:
        groups = rand_groups(rng, u, u.exact_windows)
        arg = copy.deepcopy(groups)
        if rng.random() < 0.4:
            arg = [[sel.blp_parts(b) for b in g] for g in groups]
        kw["blpair_groups"] = arg
        if rng.random() < 0.5:
            kind = rng.random()
            mult = [[float(rng.integers(0, 4)) if kind < 0.4 else float(rng.uniform(0.05, 3)) for _ in g]
                    for g in groups]
            for m in mult:
                m[int(rng.integers(len(m)))] = 1.0 + (kind > 0.7)
            kw["blpair_weights"] = copy.deepcopy(mult)
        else:
            mult = [[1.0] * len(g) for g in groups]
        extra = [b for b in blps if not any(b in g for g in groups)]
        allg = groups + [[b] for b in extra]
        allm = mult + [[1.0]] * len(extra)
    else:
        allg = [[b] for b in blps]
        allm = [[1.0]] * len(blps)
    ctx.note(uvp=gen.describe(u), opts={k: v for k, v in kw.items()}, time_avg=time_avg)
    cl = cells(u)
    meta0 = gen.meta(u)
    before = gen.snapshot(u)
    args0 = copy.deepcopy(kw)
    inplace = rng.random() < 0.4
    via = rng.random() < 0.3
    src = copy.deepcopy(u) if inplace else u
    fn = src.average_spectra if via else (lambda **k: grouping.average_spectra(src, **k))
    out = fn(time_avg=time_avg, inplace=bool(inplace), **kw)
    if inplace:
        out = src
    else:
        d = gen.same_state(gen.snapshot(u), before)
        ctx.check("input-unchanged", d is None, lambda: f"input changed: {d}")
    ctx.check("input-unchanged", kw == args0, "caller's group or weight lists changed")
    ctx.sig(time_avg, usegroups, "blpair_weights" in kw, err, tuple(stats), u.folded, u.exact_windows,
            hasattr(u, "cov_array_real"), hasattr(u, "window_function_array"))
    verify(ctx, u, out, cl, allg, allm, time_avg, err, stats)
    ctx.equal("average-metadata", {k: v for k, v in gen.meta(out).items()}, meta0, "metadata")
    for a in ("freq_array", "dly_array", "polpair_array", "scalar_array", "spw_freq_array", "spw_dly_array"):
        ctx.check("average-metadata", np.array_equal(getattr(out, a), getattr(u, a)), a)
    ctx.check("average-metadata", not gen.structure_errors(out, data=not u.folded),
              lambda: str(gen.structure_errors(out, data=not u.folded)))


def verify(ctx, u, out, cl, groups, mult, time_avg, err, stats):
    got = cells(out)
    ctx.equal("average-metadata", set(out.blpair_array.tolist()), {g[0] for g in groups}, "averaged baseline pairs")
    ctx.equal("average-metadata", out.Nblpairs, len({g[0] for g in groups}), "Nblpairs")
    for (s, pp), c in cl.items():
        exp = expected(c, groups, mult, time_avg, err, stats)
        for g, e in zip(groups, exp):
            o = got[s, pp].get(g[0])
            if not ctx.check("average", o is not None, f"no averaged spectrum for {g}"):
                continue
            want = {k for k in e if k[0] != "_"} | {"label_1", "label_2"}
            ctx.equal("average", set(o), want, "content of the average")
            for f in e:
                if f in ("_W",) or f not in o:
                    continue
                if err is not None and f in ("integ", "wgts"):
                    # an error-weighted mean stays inside the range of its inputs
                    rows = [c[b][f] for b, m in zip(g, mult[groups.index(g)]) if m > 0]
                    lo = min(r.min() for r in rows)
                    hi = max(r.max() for r in rows)
                    ok = (e["_W"] > 0).all()
                    if ok:
                        ctx.check("average", o[f].min() >= lo - 1e-9 and o[f].max() <= hi + 1e-9,
                                  lambda: f"{f} leaves the range of its inputs {lo} {hi}: {o[f]}")
                    continue
                if f.startswith("stat:"):
                    big = ~np.isfinite(e[f])
                    ok = o[f].shape == e[f].shape
                    ctx.check("average", ok and (np.abs(o[f][big]) > 1e15).all() and np.allclose(
                        o[f][~big], e[f][~big], rtol=1e-9, atol=0), lambda: f"{f} of {g}: {o[f]} want {e[f]}")
                else:
                    ctx.close("average", o[f], e[f], rtol=1e-9, what=f"{f} of group {g}")
            if (e["_W"] == 0).any():
                z = np.broadcast_to(e["_W"] == 0, o["data"].shape)
                ctx.check("flagged-excluded", (o["data"][z] == 0).all(), "data of fully flagged spectra not zero")
            zb = c[g[0]]
            n = 1 if time_avg else len(zb["label_1"])
            ctx.equal("average", (list(o["label_1"]), list(o["label_2"])),
                      (list(zb["label_1"][:n]), list(zb["label_2"][:n])), "labels")
    if u.exact_windows:
        for a in ("window_function_kperp", "window_function_kpara"):
            for s in range(u.Nspws):
                x, y = getattr(out, a)[s], getattr(u, a)[s]
                ctx.check("average-metadata", np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-12),
                          lambda: f"{a} of window {s}: {x} from {y}")
    tp = np.array(sorted(set(zip(out.time_1_array, out.time_2_array))))
    far = np.abs(tp[:, None] - tp[None]).max(-1)
    if ((far < 1e-10) | (far > 4e-6)).all():  # clearly the same or clearly not (the tolerance is 1e-6 days)
        n = len({tuple(np.flatnonzero(f < 1e-10)) for f in far})
        ctx.equal("average-metadata", (out.Ntpairs, out.Ntimes), (n, n), "number of time pairs")
    # times and LSTs
    for g in groups:
        r0, r1 = rows_of(u, g[0]), rows_of(out, g[0])
        for a in ("time_1", "time_2", "time_avg"):
            t = getattr(u, a + "_array")[r0]
            want = np.array([t.mean()]) if time_avg else t
            ctx.close("average-metadata", getattr(out, a + "_array")[r1], want, atol=1e-9, rtol=0, what=a)
        for a in ("lst_1", "lst_2", "lst_avg"):
            t = getattr(u, a + "_array")[r0]
            z = np.exp(1j * t)
            want = z.mean() / abs(z.mean()) if time_avg else z
            got_l = getattr(out, a + "_array")[r1]
            ctx.check("average-metadata", got_l.shape == np.atleast_1d(want).shape
                      and np.allclose(np.exp(1j * got_l), want, atol=1e-9)
                      and (got_l >= 0).all() and (got_l < 2 * np.pi + 1e-12).all(),
                      lambda: f"{a}: {got_l} from {t}")


def multiplicity(ctx):
    """A weight of n is the pair listed n times; a common factor does not matter."""
    rng = ctx.rng
    u = make(rng, nblp=int(rng.integers(2, 5)), exact=False)
    stats = ["P_N"] if hasattr(u, "stats_array") else []
    blps = [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]
    m = [int(x) for x in rng.integers(0, 4, len(blps))]
    m[0] = int(rng.integers(1, 4))
    kw = dict(error_field=stats, time_avg=bool(rng.random() < 0.5), inplace=False)
    if len(blps) > 2 and rng.random() < 0.5:  # the others are averaged by themselves, and count once
        blps, m = blps[:2], m[:2]
    ctx.note(uvp=gen.describe(u), mult=m, grouped=blps)
    a = grouping.average_spectra(u, blpair_groups=[blps], blpair_weights=[m], normalize_weights=False, **kw)
    rep = [b for b, k in zip(blps, m) for _ in range(k)]
    keep = set(rep) | (set(u.blpair_array.tolist()) - set(blps))
    b = grouping.average_spectra(u.select(blpairs=sorted(keep), inplace=False), blpair_groups=[rep], **kw)
    gen.compare_records(ctx, "multiplicity", gen.records(a), gen.records(b), "weights as multiplicity", rtol=1e-9)
    c = grouping.average_spectra(u, blpair_groups=[blps], blpair_weights=[m], **kw)
    f = float(rng.uniform(0.1, 7))
    d = grouping.average_spectra(u, blpair_groups=[blps], blpair_weights=[[f * x for x in m]], **kw)
    gen.compare_records(ctx, "multiplicity", gen.records(d), gen.records(c), "common factor of the weights", rtol=1e-9)
    ctx.sig("mult", tuple(sorted(m)), kw["time_avg"])


def scaling(ctx):
    """Averages scale with the data and error bars, however small they are."""
    rng = ctx.rng
    u = make(rng, stats=True, exact=False)
    f = float(10 ** rng.uniform(-9, 12))
    kw = dict(error_weights="P_N" if rng.random() < 0.5 else None, error_field=["P_N", "noise_err"],
              time_avg=bool(rng.random() < 0.7), inplace=False)
    if rng.random() < 0.7:
        kw["blpair_groups"] = [[int(b) for b in dict.fromkeys(u.blpair_array.tolist())]]
    v = copy.deepcopy(u)
    for s in range(u.Nspws):
        v.data_array[s] *= f
        for st in v.stats_array.values():
            st[s] *= f
        if hasattr(v, "cov_array_real"):
            v.cov_array_real[s] *= f * f
            v.cov_array_imag[s] *= f * f
    ctx.note(uvp=gen.describe(u), factor=f)
    a = gen.records(grouping.average_spectra(u, **kw))
    b = gen.records(grouping.average_spectra(v, **kw))
    for r in a.values():
        r["data"] = r["data"] * f
        for k in r:
            if k.startswith("stat:"):
                r[k] = r[k] * f
                if not (np.abs(r[k]) < 1e18 * f).all():
                    r[k] = np.where(np.abs(r[k]) < 1e18 * f, r[k], 0)
            elif k.startswith("cov"):
                r[k] = r[k] * f * f
    for r in b.values():
        for k in r:
            if k.startswith("stat:"):
                r[k] = np.where(np.abs(r[k]) < 1e18 * f, r[k], 0)
    gen.compare_records(ctx, "scaling", b, a, f"scaled by {f}", rtol=1e-7)
    ctx.sig("scale", round(np.log10(f)), kw["error_weights"])


def commute(ctx):
    """Averaging of one part does not depend on what else the object holds."""
    rng = ctx.rng
    u = make(rng, nblp=int(rng.integers(3, 6)), exact=False)
    groups = rand_groups(rng, u, True)
    groups = [list(dict.fromkeys(g)) for g in groups]
    seen, gg = set(), []
    for g in groups:
        g = [b for b in g if b not in seen]
        seen |= set(g)
        if g:
            gg.append(g)
    ta = bool(rng.random() < 0.5)
    a = grouping.average_spectra(u, blpair_groups=gg, time_avg=ta, inplace=False)
    k = int(rng.integers(len(gg)))
    part = u.select(blpairs=gg[k], spws=[0], polpairs=[int(u.polpair_array[-1])], inplace=False)
    b = grouping.average_spectra(part, blpair_groups=[gg[k]], time_avg=ta, inplace=False)
    c = a.select(blpairs=[gg[k][0]], spws=[0], polpairs=[int(u.polpair_array[-1])], inplace=False)
    gen.compare_records(ctx, "locality", gen.records(c), gen.records(b), "average of a part", rtol=1e-10)
    ctx.sig("commute", len(gg), ta)


def refuse(ctx):
    rng = ctx.rng
    u = make(rng, nblp=3, stats=True, exact=False)
    blps = [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]
    before = gen.snapshot(u)
    A = lambda **k: grouping.average_spectra(u, inplace=True, **k)
    missing = gen.blp_int((301, 302), (301, 302))
    bad = [
        ("not a list of groups", dict(blpair_groups=blps)),
        ("absent pair", dict(blpair_groups=[[blps[0], missing]])),
        ("absent pair first", dict(blpair_groups=[[missing]])),
        ("weights of the wrong shape", dict(blpair_groups=[blps], blpair_weights=[[1.0] * (len(blps) + 1)])),
        ("too few weight groups", dict(blpair_groups=[[b] for b in blps], blpair_weights=[[1.0]])),
        ("weights without groups", dict(blpair_weights=[[1.0] * len(blps)])),
        ("zero weights", dict(blpair_groups=[blps], blpair_weights=[[0.0] * len(blps)])),
        ("unknown error field", dict(error_field="nope")),
        ("unknown error weights", dict(error_weights="nope")),
        ("empty group", dict(blpair_groups=[[]])),
    ]
    for what, kw in bad:
        ctx.raises("bad-groups-refused", lambda: A(**kw), what=what)
        d = gen.same_state(gen.snapshot(u), before)
        ctx.check("input-unchanged", d is None, lambda: f"refused average ({what}) changed the object: {d}")
    ctx.sig("refuse", len(blps))


CASES = [Case("average", average, 400, 5000), Case("multiplicity", multiplicity, 60, 600),
         Case("scaling", scaling, 50, 500), Case("commute", commute, 60, 500), Case("refuse", refuse, 6, 20)]
