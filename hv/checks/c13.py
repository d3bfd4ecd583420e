"""C13: spherical binning and delay binning are the stated weighted means of matching modes."""
import copy

import numpy as np

from hera_pspec import conversions, grouping
from hv import cosmo, gen, sel
from hv.core import Case

ID = "C13"
RULE = ("random multi-window, multi-polarization objects (folded or not, with covariances, statistics, window "
        "functions, flagged rows) are binned onto random |k| grids under every weighting, and onto coarser delays "
        "with random kernels; outputs are compared with H^T p, H^T C H and sums of window functions computed from "
        "|k| obtained with an independent cosmology; distinct = distinct weighting x content x bin occupancy")
REQUIRE = {"spherical": 500, "spherical-metadata": 100, "delay-bins": 500, "input-unchanged": 60,
           "exact-windows": 20, "exact-average": 60, "k-axes": 50}
ASSUMPTIONS = ["every baseline-pair has the same times (documented)",
               "|k| values within 1e-4 of a bin edge are avoided by construction"]

CP = dict(Om_L=0.68440, Om_b=0.04911, Om_c=0.26442, H0=67.27)


def realstats(u):
    for st in getattr(u, "stats_array", {}).values():
        for s in st:
            st[s] = st[s].real.copy()


def blp_len(u, blp):
    p = u._hv_antpos
    (a, b), (c, d) = sel.blp_parts(blp)
    return 0.5 * (np.linalg.norm(p[a] - p[b]) + np.linalg.norm(p[c] - p[d]))


def kmag(u, cp, s, blp, dlys, h=True):
    fr = u.freq_array[u.spw_freq_array == s]
    nu = cp.f21 / (1 + cp.f2z(fr.mean()))
    return np.hypot(cp.kperp(blp_len(u, blp), nu, h), cp.kpara(np.asarray(dlys), nu, h))


def make(rng, **kw):
    kw.setdefault("exact", False)
    kw.setdefault("ndly_mode", None)
    if rng.random() < 0.2 and not kw.get("exact"):
        kw.setdefault("binned", int(rng.integers(2, 4)))
    u = gen.make_uvp(rng, ragged=False, order=str(rng.choice(["blp", "time"])), flags=bool(rng.random() < 0.3),
                     wrap_lst=bool(rng.random() < 0.2), **kw)
    realstats(u)
    if rng.random() < 0.3:
        u.cosmo = conversions.Cosmo_Conversions(Om_L=0.7, Om_b=0.05, Om_c=0.25, H0=70.)
    return u


def cosmo_of(u):
    return cosmo.LCDM(Om_L=u.cosmo.Om_L, Om_b=u.cosmo.Om_b, Om_c=u.cosmo.Om_c, H0=u.cosmo.H0)


def edges_for(rng, ks):
    """Random non-overlapping bins, none of whose edges is close to a mode."""
    lo, hi = ks.min() * 0.8, ks.max() * 1.05
    if rng.random() < 0.4:
        hi = lo + (hi - lo) * rng.uniform(0.4, 0.9)  # leaves high k out
    for _ in range(200):
        n = int(rng.integers(1, 7))
        e = np.sort(rng.uniform(lo, hi, 2 * n))
        if rng.random() < 0.6:  # contiguous
            e = np.sort(rng.uniform(lo, hi, n + 1))
            left, right = e[:-1], e[1:]
        else:
            left, right = e[::2], e[1::2]
        if np.min(np.abs(np.concatenate([left, right])[:, None] / ks[None, :] - 1)) > 1e-4 and np.all(right - left > 1e-4):
            return left, right
    return None


def spherical(ctx):
    rng = ctx.rng
    mode = str(rng.choice(["uniform", "err", "cov"], p=[0.4, 0.3, 0.3]))
    u = make(rng, stats=True if mode == "err" else None, cov=True if mode == "cov" else None)
    cp = cosmo_of(u)
    fold = bool(rng.random() < 0.3)
    inp = copy.deepcopy(u)
    if fold:
        inp.fold_spectra()
    if mode == "err" and rng.random() < 0.4:
        a = inp.stats_array["P_N"]
        for s in a:
            a[s][rng.random(a[s].shape) < 0.15] = np.inf
    blps = [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]
    dl = {s: inp.get_dlys(s) for s in range(u.Nspws)}
    if any(len(d) == 0 for d in dl.values()):
        return
    allk = np.concatenate([kmag(u, cp, s, b, dl[s]) for s in dl for b in blps] +
                          [kmag(u, cp, s, b, gen.delays(u.freq_array[u.spw_freq_array == s], n))
                           for s in dl for b in blps for n in {int((u.spw_dly_array == s).sum()), u._hv_ncol[s]}])
    e = edges_for(rng, allk)
    if e is None:
        return
    left, right = e
    kw = {}
    et = (left, right)
    if hasattr(inp, "window_function_array") and rng.random() < 0.4:
        t0, dk = allk.min() * rng.uniform(0.5, 1), (allk.max() - allk.min()) / rng.uniform(2, 6)
        kt = t0 + dk * np.arange(int(rng.integers(2, 8)))
        et = (kt - dk / 2, kt + dk / 2)
        if np.min(np.abs(np.concatenate(et)[:, None] / allk[None, :] - 1)) < 1e-4:
            et = (left, right)
        else:
            kw["kbins_theory"] = kt
    if mode == "err":
        kw["error_weights"] = "P_N"
    if mode == "cov":
        kw["weight_by_cov"] = True
    h = u.cosmo.h
    little = bool(rng.random() < 0.7)
    kc, kwid = (left + right) / 2, right - left
    if not little:
        kc, kwid = kc * h, kwid * h
        if "kbins_theory" in kw:
            kw["kbins_theory"] = kw["kbins_theory"] * h
    # averaging over times and groups first is the same as doing it before the call
    groups = None
    pre = inp
    if rng.random() < 0.5 and not fold:
        ta = bool(rng.random() < 0.5)
        akw = {"time_avg": ta}
        if rng.random() < 0.5 and len(blps) > 1:
            akw["blpair_groups"] = [blps[:2]] + [[b] for b in blps[2:]]
            if rng.random() < 0.5:
                akw["blpair_weights"] = [[1.0, 2.5]] + [[1.0]] * (len(blps) - 2)
        if ta or "blpair_groups" in akw:
            kw.update(akw)
            pre = inp.average_spectra(inplace=False, error_weights=kw.get("error_weights"), **akw)
            pre._hv_antpos = u._hv_antpos
            blps = [int(b) for b in dict.fromkeys(pre.blpair_array.tolist())]
    ctx.note(uvp=gen.describe(inp), mode=mode, bins=[left, right], kw={k: v for k, v in kw.items()}, little_h=little)
    before = gen.snapshot(inp)
    args = (kc.copy(), kwid.copy())
    A = {}
    out = grouping.spherical_average(inp, args[0], args[1], little_h=little, A=A, **kw)
    gen.consistent(ctx, out, "spherical average")
    d = gen.same_state(gen.snapshot(inp), before)
    ctx.check("input-unchanged", d is None, lambda: f"input changed: {d}")
    ctx.check("input-unchanged", np.array_equal(args[0], kc) and np.array_equal(args[1], kwid), "bins changed")
    nk = len(left)
    rows = np.array([np.where(pre.blpair_array == b)[0] for b in blps])  # (blp, time)
    nt = rows.shape[1]
    ctx.equal("spherical-metadata", (out.Nbltpairs, out.Nblpairs, out.Npols, out.Nspws),
              (nt, 1, pre.Npols, pre.Nspws), "counters")
    for s in range(pre.Nspws):
        d = dl[s]
        n = len(d)
        K = np.array([kmag(u, cp, s, b, d) for b in blps])
        inbin = (K[:, :, None] > left) & (K[:, :, None] <= right)  # blp, dly, k
        fr = u.freq_array[u.spw_freq_array == s]
        tau = (left + right) / 2 / cp.kpara(1.0, fr.mean())
        ctx.close("spherical-metadata", out.get_dlys(s), tau, rtol=1e-4, what="delays of the |k| bins")
        ctx.close("spherical-metadata", out.get_kparas(s), (left + right) / 2, rtol=1e-8, what="|k| axis")
        ctx.close("spherical-metadata", out.get_kperps(s), np.zeros(nt), atol=1e-8, what="kperp")
        if hasattr(pre, "window_function_array"):
            dcol = gen.delays(fr, u._hv_ncol[s])
            if fold:
                dcol = dcol[u._hv_ncol[s] // 2 + 1:]
            Kc = np.array([kmag(u, cp, s, b, dcol) for b in blps])
            At = ((Kc[:, :, None] > et[0]) & (Kc[:, :, None] <= et[1])).astype(float)
        for k, pp in enumerate(pre.polpair_array):
            for t in range(nt):
                r = rows[:, t]
                p = pre.data_array[s][r, -n:, k]
                ints, ns = pre.integration_array[s][r, k], pre.nsample_array[s][r, k]
                Em = np.zeros((len(blps), n, n))
                for b in range(len(blps)):
                    if mode == "cov":
                        Em[b] = np.linalg.pinv(pre.cov_array_real[s][r[b], -n:, -n:, k])
                    elif mode == "err":
                        with np.errstate(all="ignore"):
                            w = 1 / pre.stats_array["P_N"][s][r[b], -n:, k].real ** 2
                        Em[b] = np.diag(np.where(np.isfinite(w), w, 0))
                    else:
                        Em[b] = np.eye(n) * (ints[b] * ns[b] > 0)
                Ab = inbin.astype(float)
                EA = np.einsum("bij,bjk->bik", Em, Ab)
                M = np.einsum("bik,bil->kl", Ab, EA)
                H = np.einsum("bik,kl->bil", EA, np.linalg.pinv(M))
                j = np.where(np.abs(out.time_1_array - pre.time_1_array[r[0]]) < 1e-9)[0]
                j = [x for x in j if abs(out.time_2_array[x] - pre.time_2_array[r[0]]) < 1e-9]
                if not ctx.check("spherical-metadata", len(j) == 1, lambda: f"time {pre.time_1_array[r[0]]} not found"):
                    continue
                j = j[0]
                scale = np.abs(H).max() * np.abs(p).max()
                ctx.close("spherical", out.data_array[s][j, :, k], np.einsum("bik,bi->k", H, p), rtol=1e-7,
                          scale=max(scale, np.abs(p).max()), what="binned power")
                tr = np.einsum("bii->b", Em)
                if tr.sum() > 0:
                    ctx.close("spherical", out.integration_array[s][j, k], (ints * tr).sum() / tr.sum(), rtol=1e-7,
                              what="integration time")
                ctx.close("spherical", out.nsample_array[s][j, k], ns.sum(), rtol=1e-9, what="nsample")
                for a in ("lst_avg_array", "lst_1_array", "lst_2_array"):
                    ctx.close("spherical-metadata", [np.exp(1j * getattr(out, a)[j])],
                              [np.exp(1j * getattr(pre, a)[r[0]])], rtol=1e-9, what=a)
                ctx.close("spherical-metadata", out.time_avg_array[j], pre.time_avg_array[r[0]], rtol=0, atol=1e-9, what="times")
                lab = lambda x, i, q: [str(x.labels[getattr(x, a)[s, i, q]]) for a in ("label_1_array", "label_2_array")]
                ctx.equal("spherical-metadata", lab(out, j, k), lab(pre, r[0], k), "labels")
                if hasattr(pre, "cov_array_real"):
                    Cb = np.array([pre.cov_array_real[s][x, -n:, -n:, k] for x in r])
                    want = np.einsum("bik,bij,bjl->kl", H, Cb, H)
                    ctx.close("spherical", out.cov_array_real[s][j, :, :, k], want, rtol=1e-6,
                              scale=np.abs(Cb).max() * max(1, np.abs(H).max() ** 2), what="covariance")
                for st in getattr(pre, "stats_array", {}):
                    if st not in getattr(out, "stats_array", {}):
                        ctx.check("spherical", False, f"statistic {st} lost")
                        continue
                    v = pre.stats_array[st][s][r, -n:, k].real ** 2
                    fin = np.isfinite(v)
                    bad = ((H != 0) & ~fin[:, :, None]).any(axis=(0, 1))
                    want = np.sqrt(np.einsum("bik,bi->k", H**2, np.where(fin, v, 0)))
                    got = out.stats_array[st][s][j, :, k].real
                    for q in range(nk):
                        if bad[q] or want[q] == 0:
                            ctx.check("spherical", got[q] > 1e10, f"error of a bin without information {got[q]}")
                        else:
                            ctx.close("spherical", got[q], want[q], rtol=1e-6, what=f"statistic {st}")
                if hasattr(pre, "window_function_array"):
                    W = np.array([pre.window_function_array[s][x, -n:, -len(dcol):, k] for x in r])
                    want = np.einsum("bik,bij,bjl->kl", H, W, At)
                    ctx.close("spherical", out.window_function_array[s][j, :, :, k], want, rtol=1e-6,
                              scale=np.abs(W).max() * max(1.0, np.abs(H).max()), what="window functions")
    ctx.sig(mode, fold, tuple(sorted(kw)), little, hasattr(pre, "cov_array_real"), nk,
            bool(inbin.any(axis=(0, 1)).all()))


def refuse(ctx):
    rng = ctx.rng
    u = make(rng, cov=False)
    before = gen.snapshot(u)
    k = np.array([0.1, 0.2, 0.3])
    ctx.raises("bad-bins-refused", lambda: grouping.spherical_average(u, k, 0.15), what="overlapping bins")
    ctx.raises("bad-bins-refused", lambda: grouping.spherical_average(u, k, np.array([0.1, 0.1])), what="bin width count")
    ctx.raises("bad-bins-refused", lambda: grouping.spherical_average(u, k, 0.1, weight_by_cov=True), what="no covariance")
    ctx.raises("bad-bins-refused", lambda: grouping.average_in_delay_bins(u, np.ones((2, 2))), what="2-d kernel")
    ctx.raises("bad-bins-refused", lambda: grouping.average_in_delay_bins(u, np.ones(2), zero_bin_kernel=np.array([1., 2, 3])),
               what="asymmetric zero kernel")
    ctx.raises("bad-bins-refused", lambda: grouping.average_in_delay_bins(u, np.ones(2), zero_bin_kernel=np.ones(2)),
               what="even zero kernel")
    ctx.check("input-unchanged", gen.same_state(gen.snapshot(u), before) is None, "refused call changed the input")
    ctx.sig("refuse")


def kaxes(ctx):
    rng = ctx.rng
    u = make(rng)
    cp = cosmo_of(u)
    for s in range(u.Nspws):
        fr = u.freq_array[u.spw_freq_array == s]
        for h in (True, False):
            kp = u.get_kperps(s, little_h=h)
            want = np.array([cp.kperp(blp_len(u, b), fr.mean(), h) for b in u.blpair_array])
            ctx.close_rel("k-axes", kp, want, rtol=3e-5, atol=1e-9, what="k_perp per row")
            d = u.get_dlys(s)
            if len(d) < u._hv_ncol[s]:
                continue
            ctx.close_rel("k-axes", u.get_kparas(s, little_h=h), cp.kpara(d, fr.mean(), h), rtol=3e-5, atol=1e-12, what="k_para")
            ctx.close_rel("k-axes", d, gen.delays(fr, len(d)), rtol=1e-9, atol=1e-15, what="delays")
    ctx.sig("kaxes", u.Nspws)


def delay_bins(ctx):
    rng = ctx.rng
    u = make(rng, min_nf=8, max_nf=19, exact=bool(rng.random() < 0.2), ndly_mode=str(rng.choice(["same", "fewer", "odd"])))
    nmin = min(int((u.spw_dly_array == s).sum()) for s in range(u.Nspws))
    nk = int(rng.integers(1, max(2, nmin // 2)))
    ker = rng.uniform(0.1, 1, nk) if rng.random() < 0.7 else np.ones(nk)
    nz = 2 * int(rng.integers(0, max(1, nmin // 4))) + 1
    zk = rng.uniform(0.1, 1, nz)
    zk = zk + zk[::-1]
    kw = {"zero_bin_kernel": zk.copy()} if rng.random() < 0.6 else {}
    if not kw:
        zk = np.ones(1)
    cws = ("P_N", "P_SN")
    if rng.random() < 0.3:
        cws = ("noise_err",)
        kw["cov_weighted_stats"] = cws
    ctx.note(uvp=gen.describe(u), kernel=ker, zero=zk)
    if hasattr(u, "stats_array") and not (hasattr(u, "cov_array_real") and rng.random() < 0.5):
        st = u.stats_array["third_err" if "third_err" in u.stats_array else "noise_err"]
        if st is not u.stats_array.get(cws[0]):
            for s in st:
                st[s][rng.random(st[s].shape) < 0.2] = 0.0
                st[s] *= float(rng.choice([1.0, 1e180, 1e-180]))
    before = gen.snapshot(u)
    k0, z0 = ker.copy(), zk.copy()
    out = grouping.average_in_delay_bins(u, ker, **kw)
    gen.consistent(ctx, out, "average in delay bins")
    d = gen.same_state(gen.snapshot(u), before)
    ctx.check("input-unchanged", d is None, lambda: f"input changed {d}")
    ctx.check("input-unchanged", np.array_equal(ker, k0) and np.array_equal(kw.get("zero_bin_kernel", z0), z0),
              "kernel changed")
    kn, zn = k0 / k0.sum(), z0 / z0.sum()
    sizes = []
    for s in range(u.Nspws):
        dl = u.dly_array[u.spw_dly_array == s]
        N = len(dl)
        c = N // 2
        hz = len(zn) // 2
        npos = (N - c - 1 - hz) // nk
        R = []
        for m in range(npos):
            i = c + 1 + hz + m * nk
            row = np.zeros(N)
            row[i:i + nk] = kn
            R.append(row)
        neg = []
        for row in R:  # mirror of the positive bins
            q = np.zeros(N)
            for i in np.nonzero(row)[0]:
                q[2 * c - i] = row[i]
            neg.append(q)
        # an even axis has one more negative delay, which may complete another bin
        i = c - hz - (npos + 1) * nk
        if i >= 0:
            q = np.zeros(N)
            q[i:i + nk] = kn[::-1]
            neg.append(q)
        z = np.zeros(N)
        z[c - hz:c + hz + 1] = zn
        R = np.array(neg[::-1] + [z] + R)
        got = out.dly_array[out.spw_dly_array == s]
        if len(got) == len(R) - 1 and i >= 0:
            R = R[1:]
        ctx.close("delay-bins", got, R @ dl, rtol=1e-9, scale=np.abs(dl).max(), what="delays")
        if len(got) != len(R):
            continue
        sizes.append(len(R))
        for k in range(u.Npols):
            for j in range(u.Nbltpairs):
                ctx.close("delay-bins", out.data_array[s][j, :, k], R @ u.data_array[s][j, :, k], rtol=1e-9, what="data")
                if hasattr(u, "cov_array_real"):
                    for a in ("cov_array_real", "cov_array_imag"):
                        ctx.close("delay-bins", getattr(out, a)[s][j, :, :, k], R @ getattr(u, a)[s][j, :, :, k] @ R.T,
                                  rtol=1e-9, what=a)
                if hasattr(u, "window_function_array"):
                    ctx.close("delay-bins", out.window_function_array[s][j, ..., k],
                              np.tensordot(R, u.window_function_array[s][j, ..., k], 1), rtol=1e-9, what="window")
                for st in getattr(u, "stats_array", {}):
                    v = u.stats_array[st][s][j, :, k].real
                    if st in cws and hasattr(u, "cov_array_real"):
                        Cm = u.cov_array_real[s][j, :, :, k]
                        dg = np.sqrt(np.diag(Cm))
                        Cm = Cm / np.outer(dg, dg) * np.outer(v, v)
                        want = np.sqrt(np.diag(R @ Cm @ R.T))
                    else:
                        big = max(np.abs(v).max(), 1e-300)
                        want = big * np.sqrt(R @ (v / big) ** 2)
                    ctx.close("delay-bins", out.stats_array[st][s][j, :, k].real, want, rtol=1e-8, what=f"statistic {st}")
    for a in ("integration_array", "nsample_array", "wgt_array"):
        ctx.check("delay-bins", all(np.array_equal(getattr(out, a)[s], getattr(u, a)[s]) for s in range(u.Nspws)), a)
    ctx.equal("delay-bins", (out.Nspwdlys, out.Ndlys), (len(out.dly_array), len(np.unique(out.dly_array))), "counters")
    ctx.sig("dbin", nk, len(zn), tuple(sizes), hasattr(u, "stats_array"), hasattr(u, "cov_array_real"), u.exact_windows)


def exact(ctx):
    """Spherical window functions are normalized means of the exact cylindrical ones."""
    rng = ctx.rng
    u = make(rng, exact=True, stats=False, cov=False, nspw=int(rng.integers(1, 3)))
    cp = cosmo_of(u)
    # units of the object's windows, and units in which bins are asked
    hu, hl = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
    u.norm_units = "h^-3 Mpc^3" if hu else "Mpc^3"
    F = (1.0 if hu == hl else u.cosmo.h if hu else 1 / u.cosmo.h)
    blps = [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]
    for s in range(u.Nspws):  # k bins on the scale of the data
        fr = u.freq_array[u.spw_freq_array == s]
        nkp, nkz = u.window_function_kperp[s].shape[0], u.window_function_kpara[s].shape[0]
        kmax = cp.kpara(np.abs(u.get_dlys(s)).max(), fr.mean(), hu)
        u.window_function_kperp[s] = np.repeat(np.sort(rng.uniform(0.005, 0.1, nkp))[:, None], u.Npols, 1)
        u.window_function_kpara[s] = np.repeat(np.sort(rng.uniform(0.0, kmax, nkz))[:, None], u.Npols, 1)
    if rng.random() < 0.5 and len(blps) > 1:
        groups = [blps[:2]] + [[b] for b in blps[2:]]
    else:
        groups = [[b] for b in blps]
    groups = [groups[i] for i in rng.permutation(len(groups))]
    mult = [[float(rng.uniform(0.5, 2)) for _ in g] for g in groups] if rng.random() < 0.5 else None
    lens = [blp_len(u, g[0]) for g in groups]
    dl = {s: u.get_dlys(s) for s in range(u.Nspws)}
    ks = np.concatenate([np.hypot(cp.kperp(L, u.freq_array[u.spw_freq_array == s][[0, -1]].mean(), hu),
                                  cp.kpara(dl[s], u.freq_array[u.spw_freq_array == s][[0, -1]].mean(), hu))
                         for s in dl for L in lens])
    kt = np.concatenate([np.hypot(u.window_function_kperp[s][:, :1], u.window_function_kpara[s][:, 0]).ravel() for s in dl])
    allk = np.concatenate([ks, kt])
    for _ in range(100):
        e = np.sort(rng.uniform(0, allk.max() * 1.1, int(rng.integers(3, 7))))
        et = np.sort(rng.uniform(0, allk.max() * 1.1, int(rng.integers(3, 7))))
        k1 = np.sort(ks)
        mid = np.unique(0.5 * (k1[1:] + k1[:-1])[k1[1:] / k1[:-1] > 1.003])
        if rng.random() < 0.5 and len(mid) > 2:  # edges between neighbouring modes
            e = np.sort(rng.choice(mid, min(len(mid), int(rng.integers(3, 7))), replace=False))
        ee = np.concatenate([e, et])
        if np.min(np.abs(ee[:, None] / allk - 1)) > 1e-3 and np.diff(e).min() > 1e-4 and np.diff(et).min() > 1e-4:
            break
    else:
        return
    # without explicit lengths the code takes the length of the mean vector of the
    # two baselines, documented for redundant pairs only
    vec = lambda b: u._hv_antpos[b[0]] - u._hv_antpos[b[1]]
    implicit = all(abs(np.linalg.norm(sum(vec(b) for b in sel.blp_parts(g[0]))) / 2 - L) < 1e-6
                   for g, L in zip(groups, lens)) and rng.random() < 0.7
    ta = bool(rng.random() < 0.4)
    ctx.note(uvp=gen.describe(u), groups=groups, edges=e, theory=et, time_avg=ta, object_in_h=hu, bins_in_h=hl)
    before = gen.snapshot(u)
    eu, etu = e * F, et * F
    e0, et0 = eu.copy(), etu.copy()
    lh = {"little_h": hl} if not hl or rng.random() < 0.5 else {}
    w = grouping.spherical_wf_from_uvp(u, eu, kbin_edges_theory=etu, blpair_groups=groups, time_avg=ta,
                                       blpair_weights=mult, **lh, blpair_lens=None if implicit else lens)
    ctx.check("input-unchanged", gen.same_state(gen.snapshot(u), before) is None, "input changed")
    ctx.check("input-unchanged", np.array_equal(eu, e0) and np.array_equal(etu, et0), "bin edges changed")
    av = u.average_spectra(blpair_groups=groups, blpair_weights=mult, time_avg=ta, inplace=False)
    for s in range(u.Nspws):
        fr = u.freq_array[u.spw_freq_array == s]
        nu = cp.f21 / (1 + cp.f2z(fr[[0, -1]].mean()))
        K = np.array([np.hypot(cp.kperp(L, nu, hu), cp.kpara(dl[s], nu, hu)) for L in lens])
        nt = len(np.where(av.blpair_array == groups[0][0])[0])
        ctx.equal("exact-windows", np.shape(w[s]), (nt, len(e) - 1, len(et) - 1, u.Npols), "shape")
        for p in range(u.Npols):
            kk = np.hypot(u.window_function_kperp[s][:, p][:, None], u.window_function_kpara[s][:, p])
            for t in range(nt):
                cyl = np.array([av.window_function_array[s][np.where(av.blpair_array == g[0])[0][t], ..., p] for g in groups])
                want = np.zeros((len(e) - 1, len(et) - 1))
                for a in range(len(e) - 1):
                    m = (K >= e[a]) & (K < e[a + 1])
                    if not m.any():
                        continue
                    mean = cyl[m].mean(axis=0)
                    for b in range(len(et) - 1):
                        q = (kk >= et[b]) & (kk < et[b + 1])
                        want[a, b] = mean[q].mean() if q.any() else 0
                    if want[a].sum() > 0:
                        want[a] /= want[a].sum()
                ctx.close("exact-windows", w[s][t, ..., p], want, rtol=1e-7, what="spherical window functions")
    # the spherical average keeps them, and its data are those of an object without
    kw = {"time_avg": ta, **lh}
    red = [int(b) for g in u.get_red_blpairs()[0] for b in g]
    if sorted(red) != sorted(blps) or rng.random() < 0.6:  # default groups hold redundant pairs only
        kw.update(blpair_groups=groups, blpair_weights=mult)
    kc, wid = (eu[1:] + eu[:-1]) / 2, np.diff(eu)
    got = grouping.spherical_average(u, kc, wid, **kw)
    plain = copy.deepcopy(u)
    plain.exact_windows = False
    for k in ("window_function_array", "window_function_kperp", "window_function_kpara"):
        delattr(plain, k)
    want = grouping.spherical_average(plain, kc, wid, **kw)
    ww = grouping.spherical_wf_from_uvp(u, eu, **kw)
    ctx.check("input-unchanged", gen.same_state(gen.snapshot(u), before) is None, "input changed")
    got.check()
    gen.consistent(ctx, got, "spherical average")
    for s in range(u.Nspws):
        ctx.close("exact-average", got.data_array[s], want.data_array[s], rtol=1e-9, what="data of a spherical average")
        ctx.close("exact-average", got.integration_array[s], want.integration_array[s], rtol=1e-9, what="integration times")
        ctx.close("exact-average", got.nsample_array[s], want.nsample_array[s], rtol=1e-9, what="samples")
        ctx.close("exact-average", got.window_function_array[s], ww[s], rtol=1e-9, what="window functions of a spherical average")
    ctx.close("exact-average", got.time_avg_array, want.time_avg_array, rtol=0, atol=1e-9, what="times")
    ctx.sig("exact", len(groups), u.Npols, ta, mult is None, len(kw))


CASES = [Case("spherical", spherical, 300, 4000), Case("refuse", refuse, 4, 12), Case("kaxes", kaxes, 20, 100),
         Case("delay_bins", delay_bins, 150, 1500), Case("exact", exact, 100, 1000)]
