"""C26: what plots show."""
import copy
import os
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from hera_pspec import plot
from matplotlib.collections import LineCollection, QuadMesh

from hv import gen, vis
from hv.core import Case

ID = "C26"
RULE = ("random spectra objects (several windows, polarizations, baseline pairs, flagged integrations, statistics) and visibilities drawn with "
        "random options into real figures; lines, markers, error bars, images, meshes and saved figures are read back and compared with "
        "the numbers of the object; distinct = distinct plot, options and shapes")
REQUIRE = {"curve": 300, "marker": 100, "error-bar": 40, "label": 150, "axis": 100, "image": 200, "wedge": 100, "saved": 40, "kept": 100, "refused": 60}
ASSUMPTIONS = ["appearance (colours, fonts, units in labels) is not judged"]


def arr(x):
    return np.ma.filled(np.ma.asarray(x, float), np.nan)


def cast(x, c):
    return {"real": np.real, "imag": np.imag, "abs": np.abs, "abs-real": lambda v: np.abs(np.real(v)), "abs-imag": lambda v: np.abs(np.imag(v))}[c](x)


def match(ctx, mon, got, want, what):
    """Two collections of curves hold the same curves (any order)."""
    if not ctx.equal(mon, len(got), len(want), what + ": number"):
        return
    left = list(got)
    for w in want:
        sc = np.nanmax(np.abs(w[1])) if len(w[1]) and np.isfinite(w[1]).any() else 1.0
        for i, g in enumerate(left):
            if len(g[0]) == len(w[0]) and np.allclose(g[0], w[0], rtol=1e-8, atol=1e-12) and np.allclose(g[1], w[1], rtol=1e-8, atol=1e-12 * sc, equal_nan=True) \
                    and all(a == b for a, b in zip(g[2:], w[2:])):
                del left[i]
                ctx.check(mon, True)
                break
        else:
            ctx.check(mon, False, lambda: f"{what}: no curve {w} among {left[:3]}")
            return


def make(ctx, **kw):
    rng = ctx.rng
    u = gen.make_uvp(rng, beam=True, redundant=True, min_nf=6, **kw)
    u.norm_units = str(rng.choice(["h^-3 Mpc^3", "Hz str"]))
    for s in range(u.Nspws):  # integrations without data
        bad = rng.random(u.integration_array[s].shape) < 0.1
        u.integration_array[s][bad] = 0
    return u


def pick_pol(ctx, u, strings=True):
    pp = u.get_polpairs()
    p = pp[int(ctx.rng.integers(len(pp)))]
    if strings and p[0] == p[1] and ctx.rng.random() < 0.4:
        return p[0], p
    return p, p


def groups(ctx, u, avg):
    rng = ctx.rng
    keys = u.get_blpairs()
    keys = [keys[i] for i in rng.permutation(len(keys))[: int(rng.integers(1, len(keys) + 1))]]
    as_int = bool(rng.random() < 0.4)
    f = (lambda b: u.antnums_to_blpair(b)) if as_int else (lambda b: b)
    out, ref, i = [], [], 0
    while i < len(keys):
        k = int(rng.integers(1, 4)) if avg else 1
        g = keys[i:i + k]
        i += k
        ref.append(g)
        out.append([f(b) for b in g] if (len(g) > 1 or rng.random() < 0.5) else f(g[0]))
    if not avg and rng.random() < 0.4:  # groups that are not averaged
        ref = [[b for g in ref for b in g]]
        out = [[f(b) for b in ref[0]]]
    return out, ref


def state(u):
    return gen.snapshot(u)


def spectrum(ctx):
    rng = ctx.rng
    u = make(ctx, ragged=False)
    spw = int(rng.integers(u.Nspws))
    pol, pt = pick_pol(ctx, u)
    avg, tavg = bool(rng.random() < 0.4), bool(rng.random() < 0.4)
    grp, ref = groups(ctx, u, avg)
    times = None
    if rng.random() < 0.3:
        t = np.unique(u.time_avg_array)
        times = sorted(t[rng.permutation(len(t))[: int(rng.integers(1, len(t) + 1))]].tolist())
    fold = bool(rng.random() < 0.4)
    delay = bool(rng.random() < 0.6)
    dsq = bool(rng.random() < 0.5)
    comp = str(rng.choice(["real", "imag", "abs"]))
    lines = bool(rng.random() < 0.75)
    markers = bool(rng.random() < 0.5) or not lines
    logs = bool(rng.random() < 0.5)
    stats = list(getattr(u, "stats_array", {}))
    keepst = stats and not avg and not tavg
    error = stats[0] if keepst and rng.random() < 0.6 else None
    pstat = stats[-1] if keepst and rng.random() < 0.3 else None
    ltype = str(rng.choice(["auto", "key", "blpair", "blpairt"]))
    tleg = bool(rng.random() < 0.8)
    own = bool(rng.random() < 0.3)
    leg = bool(rng.random() < 0.5)
    ctx.sig("spectrum", avg, tavg, fold, delay, dsq, comp, lines, markers, logs, error is None, pstat is None, ltype, len(grp))
    kw = dict(average_blpairs=avg, average_times=tavg, fold=fold, delay=delay, deltasq=dsq, component=comp, lines=lines, markers=markers,
              logscale=logs, error=error, plot_stats=pstat, label_type=ltype, title_legend=tleg, times=times, force_plot=True, legend=leg)
    ctx.note(uvp=gen.describe(u), groups=grp, spw=spw, pol=pol, kw=kw)
    # reference
    v = copy.deepcopy(u)
    if times is not None:
        v.select(times=times, inplace=True)
    if avg:
        v.average_spectra(blpair_groups=[[v.antnums_to_blpair(b) for b in g] for g in ref], time_avg=tavg, inplace=True)
    elif tavg:
        v.average_spectra(time_avg=True, inplace=True)
    if dsq and not delay:
        v.convert_to_deltasq()
    if fold:
        v.fold_spectra()
    x = v.get_dlys(spw) * 1e9 if delay else v.get_kparas(spw)
    ser = []
    for g in ref:
        for b in g:
            r = v.blpair_to_indices(v.antnums_to_blpair(b))
            d = v.get_data((spw, b, pt)) if pstat is None else v.get_stats(pstat, (spw, b, pt))
            d = np.array(cast(d, comp), float)
            e = None if error is None else np.array(cast(v.get_stats(error, (spw, b, pt)), comp), float)
            no = v.get_integrations((spw, b, pt)) == 0
            d[no] = np.nan
            if e is not None:
                e[no] = np.nan
            for i, k in enumerate(r):
                ser.append((d[i], None if e is None else e[i], b, g, v.time_avg_array[k], v.lst_avg_array[k]))
            if avg:
                break
    before = state(u)
    ax = None
    if own:
        f0, ax = plt.subplots()
    fig = plot.delay_spectrum(u, grp, spw, pol, ax=ax, **kw)
    ctx.check("kept", (fig is None) == own, "a figure is returned unless axes are given")
    a = ax if own else fig.axes[0]
    ctx.equal("kept", gen.same_state(state(u), before), None, "the object drawn")
    ab = np.abs if logs else (lambda q: q)
    ls = [ln for ln in a.lines]
    crv = [(arr(ln.get_xdata()), arr(ln.get_ydata())) for ln in ls if str(ln.get_marker()) in ("None", "")]
    mk = [ln for ln in ls if str(ln.get_marker()) not in ("None", "")]
    match(ctx, "curve", crv, [(x, ab(d)) for d, *_ in ser] if lines else [], "curves")
    if markers:
        if logs:
            want = [(x[d >= 0], d[d >= 0], True) for d, *_ in ser] + [(x[d < 0], -d[d < 0], False) for d, *_ in ser]
            got = [(arr(ln.get_xdata()), arr(ln.get_ydata()), str(ln.get_markerfacecolor()).lower() != "none") for ln in mk]
            want, got = [w for w in want if len(w[0])], [g for g in got if len(g[0])]
            match(ctx, "marker", got, want, "markers (filled: positive)")
        else:
            match(ctx, "marker", [(arr(m.get_xdata()), arr(m.get_ydata())) for m in mk], [(x, d) for d, *_ in ser], "markers")
    else:
        ctx.equal("marker", len(mk), 0, "markers")
    if error is not None:
        got = []
        for c in a.collections:
            if isinstance(c, LineCollection):
                sg = [np.asarray(q, float) for q in c.get_segments()]
                if sg and all(len(q) == 2 for q in sg):
                    got.append((np.array([q[0, 0] for q in sg]), np.array([np.concatenate([q[:, 1]]) for q in sg]).ravel()))
        want = []
        for d, e, *_ in ser:
            y = ab(d)
            ok = np.isfinite(y) & np.isfinite(e)
            if ok.any():
                want.append((x[ok], np.array([y[ok] - e[ok], y[ok] + e[ok]]).T.ravel()))
        fin = []
        for gx, gy in got:
            gy = gy.reshape(-1, 2)
            ok = np.isfinite(gy).all(1)
            if ok.any():
                fin.append((gx[ok], gy[ok].ravel()))
        match(ctx, "error-bar", fin, want, "error bars")
    ctx.equal("axis", a.get_yscale(), "log" if logs else "linear")
    ctx.check("axis", ("tau" in a.get_xlabel()) == delay, lambda: f"x axis named {a.get_xlabel()}")
    labels(ctx, a, ser, x, ab, lines, logs, ltype, tleg, spw, pt, avg, leg)
    plt.close("all")


def labels(ctx, a, ser, x, ab, lines, logs, ltype, tleg, spw, pt, avg, leg):
    lab = [(ln, ln.get_label()) for ln in a.lines if not ln.get_label().startswith("_")]
    if not tleg:
        ctx.equal("label", (len(lab), a.get_title(), a.get_legend() is None), (0, "", True), "no labels asked for")
        return
    if not lines:
        return
    name = lambda g: str(tuple(g[0])) if len(g) == 1 else str([tuple(b) for b in g])
    nm = [name(s[3]) for s in ser]
    hrs = [f"{(s[5] % (2 * np.pi)) * 12 / np.pi:0.3f}" for s in ser]
    if ltype == "auto":
        many_b, many_t = len(set(nm)) > 1, len({s[5] for s in ser}) > 1
        t = a.get_title()
        ctx.check("label", f"spw={spw}" in t and str(pt) in t, lambda: f"title {t} should name the window and polarizations")
        if not many_b and not avg:
            ctx.check("label", nm[0] in t, lambda: f"title {t} should name the pair {nm[0]}")
        if not many_t:
            ctx.check("label", hrs[0] in t, lambda: f"title {t} should have the LST {hrs[0]}")
        for ln, tx in lab:
            k = [i for i, s in enumerate(ser) if np.array_equal(ab(s[0]), arr(ln.get_ydata()), equal_nan=True)]
            ok = any((not many_b or nm[i] in tx) and (not many_t or hrs[i] in tx) for i in k)
            ctx.check("label", ok and (many_b or many_t), lambda: f"label {tx} of the spectrum {[(nm[i], hrs[i]) for i in k]}")
        if many_b or many_t:
            ctx.equal("label", len(lab), len(ser), "every curve has a label")
        ctx.equal("label", a.get_legend() is not None, leg and (many_b or many_t), "legend")
        return
    ctx.equal("label", len(lab), len(ser), "every curve has a label")
    ctx.equal("label", a.get_legend() is not None, leg, "legend")
    for ln, tx in lab:
        k = [i for i, s in enumerate(ser) if np.array_equal(ab(s[0]), arr(ln.get_ydata()), equal_nan=True)]
        def good(i):
            if ltype == "key":
                return nm[i].replace("'", "") in tx.replace("'", "").replace('"', "") and tx.startswith(f"({spw},") and all(str(p) in tx for p in pt)
            if ltype == "blpair":
                return tx == nm[i]
            return nm[i] in tx and f"{ser[i][4]:0.5f}" in tx
        ctx.check("label", any(good(i) for i in k), lambda: f"{ltype} label {tx} of the spectrum {[(nm[i], ser[i][4]) for i in k]}")


def spectrum_refused(ctx):
    rng = ctx.rng
    u = make(ctx, nblp=4, ntimes=4, ragged=False, npol=1)
    b, p = u.get_blpairs(), u.get_polpairs()[0]
    many = gen.make_uvp(rng, nblp=3, ntimes=40, ragged=False, npol=1, nspw=1, min_nf=4, max_nf=5)
    mb = many.get_blpairs()
    if many.Ntimes * len(mb) > 100:
        ctx.raises("refused", lambda: plot.delay_spectrum(many, mb, 0, many.get_polpairs()[0]), ValueError, "more than 100 spectra")
        f = plot.delay_spectrum(many, mb, 0, many.get_polpairs()[0], force_plot=True)
        ctx.equal("curve", len(f.axes[0].lines), many.Nbltpairs, "more than 100 spectra asked for")
    for fn in (plot.delay_spectrum, plot.delay_waterfall):
        ctx.raises("refused", lambda: fn(u, [b[0][0]], 0, p), ValueError, "a baseline is no pair")
        ctx.raises("refused", lambda: fn(u, [[b[0], b[1][0]]], 0, p), ValueError, "a baseline is no pair")
        ctx.raises("refused", lambda: fn(u, ["all"], 0, p), TypeError, "a word is no pair")
        ctx.raises("refused", lambda: fn(u, [((900, 901), (900, 901))], 0, p), Exception, "a pair that is not there")
    ctx.raises("refused", lambda: plot.delay_spectrum(u, b, 0, p, error="nothing"), KeyError, "errors that are not there")
    ctx.raises("refused", lambda: plot.delay_spectrum(u, b, 0, p, plot_stats="nothing"), Exception, "statistic that is not there")
    ctx.raises("refused", lambda: plot.delay_waterfall(u, b, 0, p, component="phase"), Exception, "unknown component")
    ctx.raises("refused", lambda: plot.delay_wedge(u, 0, p, component="phase"), ValueError, "unknown component")
    lots = gen.make_uvp(rng, nblp=24, ntimes=2, ragged=False, npol=1, nspw=1, min_nf=4, max_nf=5)
    lb = lots.get_blpairs()
    if len(lb) > 20:
        ctx.raises("refused", lambda: plot.delay_waterfall(lots, lb, 0, lots.get_polpairs()[0]), ValueError, "more than 20 waterfalls")
        f = plot.delay_waterfall(lots, lb, 0, lots.get_polpairs()[0], force_plot=True, colorbar=False)
        ctx.equal("image", sum(len(a.images) for a in f.axes), len(lb), "waterfalls when forced")
    ctx.sig("refused", len(lb))
    plt.close("all")


def waterfall(ctx):
    rng = ctx.rng
    u = make(ctx, ragged=False, ntimes=int(rng.integers(2, 6)), order=str(rng.choice(["blp", "time"])))
    spw = int(rng.integers(u.Nspws))
    pol, pt = pick_pol(ctx, u)
    avg = bool(rng.random() < 0.4)
    grp, ref = groups(ctx, u, avg)
    times = None
    if rng.random() < 0.3:
        t = np.unique(u.time_avg_array)
        times = sorted(t[rng.permutation(len(t))[: int(rng.integers(2, len(t) + 1))]].tolist())
    fold, delay, dsq = bool(rng.random() < 0.4), bool(rng.random() < 0.6), bool(rng.random() < 0.5)
    comp = str(rng.choice(["real", "imag", "abs", "abs-real", "abs-imag"]))
    lg, hrs = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    vm = sorted(rng.normal(size=2).tolist()) if rng.random() < 0.4 else [None, None]
    bar = bool(rng.random() < 0.5)
    ctx.sig("waterfall", avg, fold, delay, dsq, comp, lg, hrs, bar, len(grp), times is None)
    kw = dict(average_blpairs=avg, fold=fold, delay=delay, deltasq=dsq, component=comp, log=lg, lst_in_hrs=hrs, vmin=vm[0], vmax=vm[1],
              colorbar=bar, times=times, force_plot=True, title_type=str(rng.choice(["blpair", "blvec"])))
    ctx.note(uvp=gen.describe(u), groups=grp, spw=spw, pol=pol, kw=kw)
    v = copy.deepcopy(u)
    if times is not None:
        v.select(times=times, inplace=True)
    if avg:
        v.average_spectra(blpair_groups=[[v.antnums_to_blpair(b) for b in g] for g in ref], time_avg=False, inplace=True)
    if fold:
        v.fold_spectra()
    if dsq and not delay:
        v.convert_to_deltasq()
    x = v.get_dlys(spw) * 1e9 if delay else v.get_kparas(spw)
    want = []
    for g in ref:
        for b in g:
            d = np.array(v.get_data((spw, b, pt)))
            no = v.get_integrations((spw, b, pt)) == 0
            d[no] = np.nan
            d = np.array(cast(d, comp), float)
            want.append((b, d, v.lst_avg_array[v.blpair_to_indices(v.antnums_to_blpair(b))]))
            if avg:
                break
    before = state(u)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n0 = None
        if len(want) == 1 and rng.random() < 0.5:
            f0, n0 = plt.subplots()
        elif rng.random() < 0.3:
            f0, n0 = plt.subplots(len(want), 1, squeeze=False)
            n0 = n0[:, 0] if rng.random() < 0.5 else n0
        fig = plot.delay_waterfall(u, grp, spw, pol, axes=n0, **kw)
    ctx.check("kept", (fig is None) == (n0 is not None), "a figure is returned unless axes are given")
    ctx.equal("kept", gen.same_state(state(u), before), None, "the object drawn")
    fig = fig if n0 is None else f0
    ims = [(a, im) for a in fig.axes for im in a.images]
    if not ctx.equal("image", len(ims), len(want), "number of waterfalls"):
        return
    for (a, im), (b, d, lst) in zip(ims, want):
        g = arr(im.get_array())
        neg = np.zeros(d.shape, bool)
        w = d.copy()
        if lg:
            if comp in ("real", "imag"):
                neg = d < 0
            with np.errstate(divide="ignore", invalid="ignore"):
                w = np.log10(np.abs(w))
        if not ctx.equal("image", g.shape, w.shape, "shape of the waterfall"):
            continue
        w[np.isinf(w)] = np.nan  # log of no power
        ctx.close("image", g[~neg], w[~neg], rtol=1e-9, atol=1e-9, what=f"waterfall of {b}")
        if neg.any():
            low = np.nanmin(np.where(neg, np.nan, w)) if np.isfinite(w[~neg]).any() else np.inf
            ctx.check("image", np.all(g[neg] < max(low, -9.9)) and np.isfinite(g[neg]).all(), lambda: f"negative power of {b} lies below the rest: {g[neg]} vs {low}")
        y = np.unwrap(lst)
        if y[0] > np.pi:
            y = y - 2 * np.pi
        if hrs:
            y = y * 12 / np.pi
        ctx.close("axis", np.array(im.get_extent()), np.array([x[0], x[-1], y[-1], y[0]]), rtol=1e-8, what="extent")
        if kw["title_type"] == "blpair":
            ctx.check("label", str(tuple(b[0])) in a.get_title() and str(tuple(b[1])) in a.get_title(), lambda: f"title {a.get_title()} of {b}")
        else:
            p = u._hv_antpos
            vec = 0.5 * (p[b[0][0]] - p[b[0][1]] + p[b[1][0]] - p[b[1][1]])
            ctx.check("label", f"{np.linalg.norm(vec):0.2f} m" in a.get_title() or np.linalg.norm(vec) < 1, lambda: f"title {a.get_title()}: length {np.linalg.norm(vec)}")
        if vm[0] is not None:
            ctx.equal("image", tuple(im.get_clim()), tuple(vm), "colour limits")
    plt.close("all")


def wedge(ctx):
    rng = ctx.rng
    # a few lengths, several pairs each
    n = int(rng.integers(4, 7))
    ants = vis.line_array(rng, n, sep=14.6)
    ang = rng.uniform(0, 2 * np.pi)
    ants = {k: np.array([np.cos(ang) * v[0], np.sin(ang) * v[0], 0]) for k, v in ants.items()}
    u = make(ctx, antenna=ants, nblp=int(rng.integers(6, 16)), ragged=False, npol=int(rng.integers(1, 3)), ndly_mode="same")
    ln = {b: 0.5 * (np.linalg.norm(ants[b[0][0]] - ants[b[0][1]]) + np.linalg.norm(ants[b[1][0]] - ants[b[1][1]])) for b in u.get_blpairs()}
    red = [b for b in ln if np.allclose(ants[b[0][0]] - ants[b[0][1]], ants[b[1][0]] - ants[b[1][1]])]
    if not red:
        return
    u.select(blpairs=red, inplace=True)
    for s in range(u.Nspws):
        u.integration_array[s][u.integration_array[s] == 0] = 10.0
    spw = int(rng.integers(u.Nspws))
    pt = u.get_polpairs()[int(rng.integers(u.Npols))]
    blps = None
    if u.Nblpairs > 1 and rng.random() < 0.5:
        k = u.get_blpairs()
        blps = [k[i] for i in rng.permutation(len(k))[: int(rng.integers(2, len(k) + 1))]]
    times = None
    if rng.random() < 0.4:
        t = np.unique(u.time_avg_array)
        times = sorted(t[rng.permutation(len(t))[: int(rng.integers(1, len(t) + 1))]].tolist())
    fold, delay, dsq, rot = bool(rng.random() < 0.4), bool(rng.random() < 0.5), bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    comp = str(rng.choice(["real", "imag", "abs", "abs-real", "abs-imag"]))
    lg = bool(rng.random() < 0.5)
    hor = bool(rng.random() < 0.4)
    ew = None
    if hasattr(u, "stats_array") and rng.random() < 0.4:
        ew = list(u.stats_array)[0]
        for s in range(u.Nspws):
            u.stats_array[ew][s] = np.abs(u.stats_array[ew][s]) + 0.1 * np.nanmax(np.abs(u.stats_array[ew][s]))
    v = copy.deepcopy(u)
    if times is not None or blps is not None:
        v.select(blpairs=blps, times=times, inplace=True)
    byl = {}
    for b in v.get_blpairs():
        byl.setdefault(round(ln[b] / 14.6), []).append(b)
    lens = sorted(byl)
    ctx.sig("wedge", fold, delay, dsq, rot, comp, lg, hor, len(lens), blps is None, times is None, ew is None)
    kw = dict(blpairs=blps, times=times, fold=fold, delay=delay, deltasq=dsq, rotate=rot, component=comp, log10=lg, horizon_lines=hor, error_weights=ew)
    ctx.note(uvp=gen.describe(u), spw=spw, pol=pt, kw=kw, lengths=lens)
    before = state(u)
    if len(lens) < 2:
        ctx.raises("refused", lambda: plot.delay_wedge(u, spw, pt, **kw), ValueError, "a single length")
        plt.close("all")
        return
    grp = [[v.antnums_to_blpair(b) for b in byl[q]] for q in lens]
    v.average_spectra(blpair_groups=grp, time_avg=True, error_weights=ew, inplace=True)
    if dsq and not delay:
        v.convert_to_deltasq(inplace=True)
    if fold:
        v.fold_spectra()
    h = "h^-3" in u.norm_units
    if delay:
        xd, yl = v.get_dlys(spw) * 1e9, np.array([np.mean([ln[b] for b in byl[q]]) for q in lens])
    else:
        xd = v.get_kparas(spw, little_h=h)
        z = v.cosmo.f2z(np.mean(v.freq_array[v.spw_to_freq_indices(spw)]))
        yl = np.array([np.mean([ln[b] for b in byl[q]]) for q in lens]) * v.cosmo.bl_to_kperp(z, little_h=h)
    d = []
    for g in grp:
        have = [b for b in g if b in v.blpair_array]
        if not ctx.equal("wedge", len(have), 1, "one spectrum for every length"):
            return
        d.append(v.get_data((spw, have[0], pt))[0])
    d = cast(np.array(d), comp)
    neg = np.zeros(d.shape, bool)
    if lg:
        if comp in ("real", "imag"):
            neg = d < 0
        with np.errstate(divide="ignore", invalid="ignore"):
            d = np.log10(np.abs(d))
    own = bool(rng.random() < 0.3)
    ax = plt.subplots()[1] if own else None
    cen, flx, fly, logax = (bool(x) for x in rng.random(4) < 0.3)
    logax = logax and fold and lens[0] > 0
    lim = {}
    if rng.random() < 0.4:
        lim = dict(vmin=float(rng.uniform(-3, 0)), vmax=float(rng.uniform(1, 9)))
    if rng.random() < 0.4:
        lim["title"] = "some title"
    tick = bool(rng.random() < 0.3)
    if tick:
        lim["set_bl_tick_major"] = True
    fig = plot.delay_wedge(u, spw, pt, ax=ax, colorbar=bool(rng.random() < 0.3), center_line=cen, flip_xax=flx, flip_yax=fly,
                           loglog=logax, **lim, **kw)
    ctx.equal("kept", gen.same_state(state(u), before), None, "the object drawn")
    ctx.check("kept", (fig is None) == own, "a figure is returned unless axes are given")
    a = ax if own else fig.axes[0]
    mesh = [c for c in a.collections if isinstance(c, QuadMesh)]
    if not ctx.equal("wedge", len(mesh), 1, "meshes"):
        return
    co = np.asarray(mesh[0].get_coordinates())
    g = arr(mesh[0].get_array()).reshape(co.shape[0] - 1, co.shape[1] - 1)
    xe, ye = co[0, :, 0], co[:, 0, 1]
    if rot:
        xe, ye, g = ye, xe, g.T
    if not ctx.equal("wedge", g.shape, d.shape, "cells: lengths by delays"):
        return

    def edges(c):
        m = 0.5 * (c[1:] + c[:-1])
        return np.concatenate([[c[0] - (m[0] - c[0])], m, [c[-1] + (c[-1] - m[-1])]])
    ctx.close("axis", xe, edges(xd), rtol=1e-6, what="delay axis")
    ctx.close("axis", ye, edges(yl), rtol=1e-4, what="length axis")
    ctx.close("wedge", g[~neg], d[~neg], rtol=1e-8, atol=1e-9, what="power")
    if neg.any():
        low = np.min(d[~neg]) if (~neg).any() else np.inf
        ctx.check("wedge", np.all(g[neg] < (max(low, -9.9) if lg else low)), lambda: f"negative power lies below the rest: {g[neg]} vs {low}")
    if hor:
        t = np.array([np.mean([ln[b] for b in byl[q]]) for q in lens]) / 299792458.0
        t = t * 1e9 if delay else t * v.cosmo.tau_to_kpara(z, little_h=h)
        got = []
        for li in a.lines:
            p, q = arr(li.get_xdata()), arr(li.get_ydata())
            if rot:
                p, q = q, p
            if len(p) == 2 and abs(p[0] - p[1]) < 1e-12 and not np.allclose(q, [0, 1]):
                got.append((p, q))
        e = edges(yl)
        want = [(np.array([s * t[i]] * 2), e[i:i + 2]) for i in range(len(lens)) for s in ((1,) if fold else (1, -1))]
        ok = len(got) == len(want) and all(any(np.allclose(w[0], x[0], rtol=1e-3, atol=1e-6) and np.allclose(w[1], x[1], rtol=1e-3, atol=1e-6) for x in got) for w in want)
        ctx.check("wedge", ok, lambda: f"horizon lines {got} want {want}")
    if "vmin" in lim:
        ctx.close("wedge", np.array(mesh[0].get_clim()), np.array([lim["vmin"], lim["vmax"]]), rtol=1e-12, what="colour limits")
    if "title" in lim:
        ctx.equal("wedge", a.get_title(), lim["title"], "title")
    ctx.equal("wedge", (a.xaxis_inverted(), a.yaxis_inverted()), (flx, fly), "axes turned round")
    ctx.equal("wedge", (a.get_xscale(), a.get_yscale()), ("log",) * 2 if logax else ("linear",) * 2, "kind of axes")
    if tick and not logax:
        t = a.get_xticks() if rot else a.get_yticks()
        ctx.check("wedge", len(t) == len(yl) and np.allclose(t, yl, rtol=0.06, atol=1e-8), lambda: f"ticks {t} for lengths {yl}")
    if cen and not hor:
        li = [arr(x.get_ydata() if rot else x.get_xdata()) for x in a.lines]
        ctx.check("wedge", len(li) == 1 and np.all(li[0] == 0), lambda: f"centre line {li}")
    plt.close("all")


def saved(ctx):
    rng = ctx.rng
    ants = vis.line_array(rng, 3)
    nums = sorted(ants)
    bls = [(i, j) for n, i in enumerate(nums) for j in nums[n:]]
    bls = [bls[k] for k in sorted(rng.permutation(len(bls))[: int(rng.integers(1, 4))])]
    pols = [("xx",), ("xx", "yy"), ("pI",)][int(rng.integers(3))]
    u = vis.make_uvd(rng, ants, bls, ntimes=int(rng.integers(2, 6)), nfreqs=int(rng.integers(3, 12)), pols=pols, flags=0.3, nsamples=True)
    what = str(rng.choice(["data", "flags", "nsamples"]))
    mode = str(rng.choice(["log", "abs", "real", "imag", "phs"])) if what == "data" else "real"
    fmt = [None, "png", "png", "pdf"][int(rng.integers(4))]
    ext = bool(rng.random() < 0.5) or fmt is None
    base = os.path.join(ctx.tmp, "w_{bl}_{pol}" + ("." + (fmt or "png") if ext else ""))
    lim = sorted(rng.normal(size=2).tolist()) if rng.random() < 0.4 else [None, None]
    ctx.sig("saved", what, mode, fmt, ext, len(pols), len(bls), lim[0] is None)
    ctx.note(bls=bls, pols=pols, data=what, mode=mode, format=fmt, basename=base)
    shots = {}
    real = matplotlib.figure.Figure.savefig

    def spy(self, fname, *a, **k):
        shots[str(fname)] = [(arr(im.get_array()), im.get_clim()) for ax in self.axes for im in ax.images]
        return real(self, fname, *a, **k)
    snap = vis.snapshot(u)
    kw = {} if fmt == "png" and rng.random() < 0.5 else {"format": fmt}
    matplotlib.figure.Figure.savefig = spy
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plot.plot_uvdata_waterfalls(u, base, data=what, plot_mode=mode, vmin=lim[0], vmax=lim[1], **kw)
    finally:
        matplotlib.figure.Figure.savefig = real
    plt.close("all")
    ctx.equal("kept", vis.same(u, snap), None, "the data drawn")
    want = {}
    for a1, a2 in bls:
        for p in u.get_pols():
            f = base.format(bl=f"{a1}.{a2}", pol=p)
            want[f if ext else f + "." + fmt] = (a1, a2, p)
    ctx.equal("saved", sorted(os.listdir(ctx.tmp)), sorted(os.path.basename(f) for f in want), "files")
    for f, (a1, a2, p) in want.items():
        if f not in shots:
            continue
        d = vis.wf(u, (a1, a2), int(u.polarization_array[u.get_pols().index(p)]), {"data": "data", "flags": "flag", "nsamples": "nsample"}[what])
        with np.errstate(divide="ignore"):
            w = {"log": lambda: np.log10(np.abs(d)), "abs": lambda: np.abs(d), "real": lambda: np.real(d), "imag": lambda: np.imag(d), "phs": lambda: np.angle(d)}[mode]()
        im = [q for q in shots[f] if q[0].shape == w.shape]
        ctx.check("saved", len(im) == 1 and np.allclose(im[0][0], np.asarray(w, float), rtol=1e-8, atol=1e-12), lambda: f"{f} shows {shots[f][:1]} want {w}")
        if lim[0] is not None and im:
            ctx.close("saved", np.array(im[0][1]), np.array(lim), rtol=1e-8, what="colour limits")
    ctx.raises("refused", lambda: plot.plot_uvdata_waterfalls(u, base, data="weights"), Exception, "unknown array")
    plt.close("all")


CASES = [Case("spectrum", spectrum, 110, 800), Case("refused", spectrum_refused, 6, 20), Case("waterfall", waterfall, 50, 600),
         Case("wedge", wedge, 50, 600), Case("saved", saved, 20, 120)]
