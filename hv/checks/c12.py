"""C12: folding averages matching positive and negative delays, for every associated quantity."""
import copy

import numpy as np

from hera_pspec import grouping, uvpspec
from hv import gen
from hv.core import Case

ID = "C12"
RULE = ("random objects with even and odd delay counts, several windows, covariances, statistics, binned and exact "
        "windows are folded and every quantity is compared with F x or F C F^T for the folding matrix F built from "
        "the delays themselves; folding is also commuted with averaging, selecting, combining and writing; "
        "distinct = distinct parity pattern x content combination")
REQUIRE = {"folded": 2000, "fold-commutes": 60, "second-fold-refused": 30}
ASSUMPTIONS = ["statistics are folded as the inverse quadrature sum, as documented; they are real"]


def fold_matrix(dlys):
    """(positive delays, Npos x N matrix averaging +tau and -tau)."""
    d = np.asarray(dlys)
    tol = 1e-6 * np.median(np.diff(d))
    pos = [i for i, t in enumerate(d) if t > -tol]
    F = np.zeros((len(pos), len(d)))
    for r, i in enumerate(pos):
        j = [k for k, t in enumerate(d) if abs(t + d[i]) < tol]
        assert len(j) == 1, "no mirror delay"
        F[r, i] += 0.5
        F[r, j[0]] += 0.5
    return d[pos], F


def columns(u, s):
    """Sums the columns of a window function at +tau and -tau (of the delays before any averaging in delay)."""
    fr = u.freq_array[u.spw_freq_array == s]
    F = fold_matrix(gen.delays(fr, u.window_function_array[s].shape[2]))[1]
    out = 2 * F
    out[F == 1] = 1
    return out


def fold_records(u, zero=False):
    """Folded content; the accessors show the positive delays, the arrays (zero=True) zero delay too."""
    out = {}
    for s in range(u.Nspws):
        di = np.where(u.spw_dly_array == s)[0]
        dl, F = fold_matrix(u.dly_array[di])
        sr = tuple(float(x) for x in u.get_spw_ranges(s)[0])
        z = slice(0 if zero else 1, None)
        dl, F = dl[z], F[z]
        sr = sr[:3] + (float(len(dl)),)
        for j in range(u.Nbltpairs):
            for k, pp in enumerate(u.polpair_array):
                r = {"data": F @ u.data_array[s][j, :, k], "wgts": u.wgt_array[s][j, :, :, k],
                     "integ": u.integration_array[s][j, k], "nsample": 2 * u.nsample_array[s][j, k],
                     "dlys": dl}
                if hasattr(u, "cov_array_real"):
                    r["cov_real"] = F @ u.cov_array_real[s][j, :, :, k] @ F.T
                    r["cov_imag"] = F @ u.cov_array_imag[s][j, :, :, k] @ F.T
                if hasattr(u, "window_function_array"):
                    w = u.window_function_array[s][j, ..., k]
                    if u.exact_windows:
                        r["window"] = np.tensordot(F, w, 1)
                    else:
                        r["window"] = F @ w @ columns(u, s).T[:, z]
                for st in getattr(u, "stats_array", {}):
                    v = u.stats_array[st][s][j, :, k]
                    e = []
                    for row in range(len(dl)):
                        idx = np.where(F[row] > 0)[0]
                        e.append(v[idx[0]] if len(idx) == 1 else (1 / v[idx[0]]**2 + 1 / v[idx[1]]**2) ** -0.5)
                    r["stat:" + st] = np.array(e)
                for a in ("time_1", "time_2", "time_avg", "lst_1", "lst_2", "lst_avg"):
                    r[a] = getattr(u, a + "_array")[j]
                r["label_1"] = str(u.labels[u.label_1_array[s, j, k]])
                r["label_2"] = str(u.labels[u.label_2_array[s, j, k]])
                out[sr, int(u.blpair_array[j]), float(u.time_1_array[j]), float(u.time_2_array[j]), int(pp)] = r
    return out


def make(rng, **kw):
    kw.setdefault("exact", bool(rng.random() < 0.2))
    kw.setdefault("ndly_mode", str(rng.choice(["same", "even", "odd", "fewer"])))
    kw.setdefault("binned", int(rng.integers(2, 4)) if rng.random() < 0.2 else False)
    u = gen.make_uvp(rng, flags=bool(rng.random() < 0.3), **kw)
    for st in getattr(u, "stats_array", {}).values():
        for s in st:
            st[s] = st[s].real.copy()
    return u


def parity(u):
    return tuple(int(np.sum(u.spw_dly_array == s)) % 2 for s in range(u.Nspws))


def fold(ctx):
    rng = ctx.rng
    u = make(rng)
    ctx.note(uvp=gen.describe(u))
    want = fold_records(u)
    src = copy.deepcopy(u)
    if rng.random() < 0.5:
        u.fold_spectra()
    else:
        grouping.fold_spectra(u)
    gen.compare_records(ctx, "folded", gen.getter_records(u), want, "folded", rtol=1e-10)
    ctx.check("folded", u.folded is True, "folded flag")
    gen.consistent(ctx, u, "folded")
    raw = fold_records(src, zero=True)
    for s in range(u.Nspws):
        full = src.dly_array[src.spw_dly_array == s]
        c = int(np.argmin(np.abs(full)))
        sr = tuple(float(x) for x in src.get_spw_ranges(s)[0])[:3] + (float(len(full) - c),)
        for j in range(u.Nbltpairs):
            for k, pp in enumerate(u.polpair_array):
                r = raw[sr, int(u.blpair_array[j]), float(u.time_1_array[j]), float(u.time_2_array[j]), int(pp)]
                g = {"data": u.data_array[s][j, c:, k]}
                if "cov_real" in r:
                    g["cov_real"] = u.cov_array_real[s][j, c:, c:, k]
                    g["cov_imag"] = u.cov_array_imag[s][j, c:, c:, k]
                if "window" in r:
                    w = u.window_function_array[s][j, ..., k]
                    g["window"] = w[c:] if u.exact_windows else w[c:, w.shape[1] // 2:]
                for st in getattr(u, "stats_array", {}):
                    g["stat:" + st] = u.stats_array[st][s][j, c:, k]
                d = gen.same_record(g, {x: r[x] for x in g}, rtol=1e-10)
                ctx.check("folded", d is None, lambda: f"stored arrays from zero delay up: {d}")
    for s in range(u.Nspws):
        d = u.get_dlys(s)
        ctx.check("folded", (d >= 0).all() and len(u.get_kparas(s)) == len(d), "delay axis")
        full = src.dly_array[src.spw_dly_array == s]
        neg = full < -1e-6 * np.median(np.diff(full))
        ctx.check("folded", not np.any(u.data_array[s][:, neg]), "power left at negative delays")
    m0, m1 = gen.meta(src), gen.meta(u)
    m0.pop("folded"), m1.pop("folded")
    ctx.equal("folded", m1, m0, "metadata")
    ctx.sig(parity(u), hasattr(u, "cov_array_real"), hasattr(u, "stats_array"), u.exact_windows,
            hasattr(u, "window_function_array"), src._hv_ncol != [int((src.spw_dly_array == s).sum()) for s in range(src.Nspws)])
    before = gen.snapshot(u)
    ctx.raises("second-fold-refused", u.fold_spectra, what="second fold")
    ctx.check("second-fold-refused", gen.same_state(gen.snapshot(u), before) is None, "refused fold changed the object")
    # rows of a normalized window function stay normalized
    if (hasattr(u, "window_function_array") and not u.exact_windows
            and all(u.window_function_array[s].shape[2] % 2 for s in range(u.Nspws))):
        for s in range(u.Nspws):
            w = u.window_function_array[s][:, u.window_function_array[s].shape[1] // 2:]
            ctx.close("folded", w.sum(axis=2), np.ones(w.sum(axis=2).shape), rtol=1e-10, what="window row sums")


def commute(ctx):
    """Folding does not interact with selecting, combining, storing or averaging."""
    rng = ctx.rng
    what = str(rng.choice(["select", "combine", "store", "average"]))
    u = make(rng, ragged=False, order="blp", nblp=3, nspw=2, **({"exact": False} if what == "average" else {}))
    if what == "average" and hasattr(u, "stats_array"):
        del u.stats_array
    ctx.note(uvp=gen.describe(u), what=what)
    f = lambda x: (lambda y: (y.fold_spectra(), y)[1])(copy.deepcopy(x))
    if what == "select":
        blp = [int(u.blpair_array[0])]
        kw = dict(blpairs=blp, spws=[int(rng.integers(2))])
        a, b = f(u.select(inplace=False, **kw)), f(u).select(inplace=False, **kw)
    elif what == "combine":
        p = [u.select(spws=[i], inplace=False) for i in (0, 1)]
        a, b = f(uvpspec.combine_uvpspec(p, verbose=False)), uvpspec.combine_uvpspec([f(q) for q in p], verbose=False)
    elif what == "store":
        import os
        fn = os.path.join(ctx.tmp, "f.h5")
        a = f(u)
        a.write_hdf5(fn)
        b = uvpspec.UVPSpec()
        b.read_hdf5(fn)
    else:
        g = [[int(x) for x in dict.fromkeys(u.blpair_array.tolist())]]
        ta = bool(rng.random() < 0.6)
        a = f(u.average_spectra(blpair_groups=g, time_avg=ta, inplace=False))
        b = f(u).average_spectra(blpair_groups=g, time_avg=ta, inplace=False)
    gen.compare_records(ctx, "fold-commutes", gen.getter_records(a), gen.getter_records(b), what, rtol=1e-9)
    ctx.sig("commute", what, parity(u))


CASES = [Case("fold", fold, 300, 4000), Case("commute", commute, 150, 1500)]
