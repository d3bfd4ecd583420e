"""C01: bandpowers and window functions are those of the stated quadratic estimator."""
import numpy as np

from hv import oqe, scene, vis
from hv.core import Case, Stop

ID = "C01"
RULE = ("random datasets (several polarizations in different orders, baselines in both orientations, flags, explicit weights, shuffled rows) "
        "and random settings; every bandpower and window function of the result is recomputed from the raw arrays by an "
        "independent estimator; distinct = distinct combination of settings and shapes")
REQUIRE = {"bandpower": 600, "window": 600, "unnormalized": 60, "fft-same": 40, "matrices": 60}
ASSUMPTIONS = ["visibility noise is generic: covariance matrices used as weights are well conditioned",
               "weights are 0 or 1; flags at individual times do not mask data (the documented convention)"]


def verify(ctx, sc, uvp, what="", q=False, rtol=1e-7):
    for s in range(len(sc.spws)):
        for i in range(len(sc.b1)):
            for j, pp in enumerate(sc.polpairs):
                num = tuple(vis.POLNUM[p] for p in pp)
                scalar = float(uvp.scalar_array[s, uvp.polpair_array.tolist().index(
                    (20 + num[0]) * 100 + 20 + num[1])])
                E = sc.want(s, i, pp, scalar)
                if sc.weighting == "identity" and sc.norm == "I" and not sc.exact and not E.degenerate:
                    # one normalization for all delays was used: there must be one
                    ctx.check("band-independent", E.scatter < 1e-3, f"accepted although normalizations scatter by {E.scatter}")
                key = (s, (sc.b1[i], sc.b2[i]), pp)
                if E.degenerate or not np.isfinite(E.p).all():
                    ctx.event("singular")
                    continue
                ctx.close("unnormalized" if q else "bandpower", uvp.get_data(key), (E.q if q else E.p).T, rtol=rtol,
                          what=f"{what} {key}")
                if hasattr(uvp, "window_function_array"):
                    for t in range(sc.ntimes):
                        ctx.close("window", uvp.get_window_function(key)[t], E.W, rtol=rtol, what=f"{what} window {key}")


def run_one(ctx, **kw):
    sc = scene.Scene(ctx.rng, **kw)
    ctx.note(scene=sc.describe())
    before = [vis.snapshot(u) for u in sc.dsets]
    try:
        uvp = sc.run(store_window=True)
    except scene.Refused as e:
        ctx.check("refusal", sc.justified(), f"refused: {e}")
        raise Stop() from None
    verify(ctx, sc, uvp)
    for u, b in zip(sc.dsets, before):
        ctx.equal("input-unchanged", vis.same(u, b), None, "visibilities")
    ctx.sig(sc.weighting, sc.norm, sc.taper, sc.symmetric, len(sc.spws), sc.nd == [b - a for a, b in sc.spws],
            sc.sampling, sc.exact, len(sc.polpairs), sc.beam is not None, any(sum(e) for e in sc.ext))
    ctx.sample(scene=sc.describe())
    return sc, uvp


def identity(ctx):
    sc, uvp = run_one(ctx)
    q = sc.run(return_q=True, store_window=False)
    verify(ctx, sc, q, "unnormalized", q=True)
    ctx.check("unnormalized", not hasattr(q, "window_function_array"), "window functions stored unasked")
    if not any(sum(e) for e in sc.ext):
        f = sc.run(allow_fft=True)
        for s in uvp.data_array:
            ctx.close("fft-same", f.data_array[s], uvp.data_array[s], rtol=1e-8, what="fast transform")


def inverse(ctx):
    """H^-1 needs as many unflagged channels as delays."""
    run_one(ctx, norm="H^-1", flags=0.0, wgts=False, taper="none" if ctx.rng.random() < 0.5 else "hamming",
            weighting=str(ctx.rng.choice(["identity", "dayenu"])))


def exact(ctx):
    run_one(ctx, exact_norm=True, with_beam=bool(ctx.rng.random() < 0.8))


def dayenu(ctx):
    run_one(ctx, weighting="dayenu", ext=bool(ctx.rng.random() < 0.6))


def ext(ctx):
    run_one(ctx, weighting="identity", ext=True)


def inverse_cov(ctx):
    run_one(ctx, weighting="iC", nfreqs=int(ctx.rng.integers(4, 8)), flags=0.0, wgts=False,
            ext=bool(ctx.rng.random() < 0.4), nbl=2, dynamic=bool(ctx.rng.random() < 0.6))


def decorrelated(ctx):
    """V^-1/2 with an empirical covariance of rank above the number of delays, in any units of the data."""
    amp = float(10 ** ctx.rng.uniform(-7, 4)) if ctx.rng.random() < 0.7 else 1.0
    run_one(ctx, norm="V^-1/2", nfreqs=int(ctx.rng.integers(4, 7)), ntimes=40, flags=0.0, wgts=False, nbl=2, amp=amp)


def matrices(ctx):
    """The public pieces (data, weights, R, q, G, H, E, M) for the currently selected window."""
    rng = ctx.rng
    w = str(rng.choice(["identity", "dayenu", "iC"]))
    sc = scene.Scene(rng, weighting=w, max_spw=1, nbl=1, nfreqs=int(rng.integers(5, 8)) if w == "iC" else None,
                     flags=0.0 if w == "iC" else None, wgts=False if w == "iC" else None)
    ctx.note(scene=sc.describe())
    ds = sc.make()
    ds.set_weighting(w)
    ds.set_taper(sc.taper)
    ds.set_symmetric_taper(sc.symmetric)
    ds.set_spw(sc.spws[0], ndlys=sc.nd[0])
    pp = sc.polpairs[0]
    (o1, o2), tap = sc.pieces(0, 0, pp)
    E = sc.want(0, 0, pp)
    k1, k2 = (sc.pair[0], sc.b1[0], pp[0]), (sc.pair[1], sc.b2[0], pp[1])
    if rng.random() < 0.5:
        k1, k2 = (ds.labels[sc.pair[0]],) + k1[1:], (sc.pair[1],) + sc.b2[0] + (pp[1],)
    if w == "dayenu":
        ds.set_r_param(k1, sc.r_params[(sc.pair[0],) + sc.b1[0] + (pp[0],)])
        ds.set_r_param(k2, sc.r_params[(sc.pair[1],) + sc.b2[0] + (pp[1],)])
    ctx.close("matrices", ds.x(k1), o1[0], what="x")
    ctx.close("matrices", ds.w(k2), o2[1], what="w")
    ctx.close("matrices", ds.R(k1), o1[2] + 0j if w != "identity" else o1[2], rtol=1e-7, what="R")
    ctx.close("matrices", ds.get_G(k1, k2), E.G, rtol=1e-7, what="G")
    ctx.close("matrices", ds.get_H(k1, k2, sampling=sc.sampling), E.H, rtol=1e-7, what="H")
    ctx.close("matrices", ds.get_unnormed_E(k1, k2), E.E, rtol=1e-7, what="E")
    q = ds.q_hat(k1, k2)
    ctx.close("matrices", q, E.q, rtol=1e-7, what="q")
    # the adjustment for the number of delays and the taper
    nd, n = sc.nd[0], sc.spws[0][1] - sc.spws[0][0]
    if not E.degenerate:
        r = E.H.sum(1).real / E.G.sum(1).real
        want = nd / n / (r.mean() if w == "identity" else r) * np.mean(tap**2)
        got = [ds.scalar_delay_adjustment(k1, k2, sampling=sc.sampling), ds.scalar_delay_adjustment(Gv=E.G, Hv=E.H)]
        for g in got:
            ctx.close("matrices", np.broadcast_to(g, (nd,)), np.broadcast_to(want, (nd,)), rtol=1e-6, what="adjustment of the normalization")
    Hv = np.abs(rng.normal(size=(nd, nd))) + np.diag(10.0 * np.arange(nd))
    if w == "identity":
        ctx.raises("matrices", lambda: ds.scalar_delay_adjustment(Gv=np.ones((nd, nd)), Hv=Hv), ValueError, "delay-dependent normalization")
    else:
        ctx.close("matrices", ds.scalar_delay_adjustment(Gv=np.eye(nd), Hv=Hv), nd / n / Hv.sum(1) * np.mean(tap**2), rtol=1e-9, what="adjustment per delay")
    # several baselines of the same kind are summed before squaring
    if w == "identity":
        n = int(rng.integers(2, 4))
        q2 = ds.q_hat([k1] * n, [k2] * n)
        ctx.close("matrices", q2, n * n * E.q, rtol=1e-7, what="q of repeated keys")
    # different ones too: each with its own weights
    others = [(d,) + bl + (p,) for d in sorted(set(sc.pair)) for bl in sc.bls for p in (pp[0],)]
    ks = [[k] + [others[i] for i in rng.permutation(len(others))[:int(rng.integers(0, 3))]] for k in (k1, k2)]
    if w != "dayenu" or sum(map(len, ks)) == 2 or all(k in sc.r_params for k in others):
        if w == "dayenu":
            for k in others:
                if k not in (k1, k2):
                    ds.set_r_param(k, sc.r_params[k])
        ctx.close("matrices", ds.q_hat(ks[0], ks[1]), sum(ds.q_hat(a, b) for a in ks[0] for b in ks[1]), rtol=1e-7, what=f"q of several keys {ks}")
    # the response to each delay, from delays and frequencies
    m = int(rng.integers(sc.nd[0]))
    tau, nu = ds.delays()[m] * 1e-9, sc.dsets[0].freq_array[slice(*sc.spws[0])]
    ctx.close("matrices", ds.get_Q(m), np.exp(2j * np.pi * tau * (nu[:, None] - nu[None, :])), rtol=1e-6, what="Q")
    ctx.raises("matrices", lambda: ds.get_Q(sc.nd[0]), IndexError, "no such delay")
    # normalizations of any response
    V = rng.normal(size=(nd, nd)) + 1j * rng.normal(size=(nd, nd))
    V = (V @ V.conj().T + np.eye(nd)) * 10 ** rng.uniform(-28, 12)
    G, H = np.abs(rng.normal(size=(nd, nd))) + np.eye(nd), np.abs(rng.normal(size=(nd, nd))) + 2 * nd * np.eye(nd)
    row = lambda A: A / A.sum(1)[:, None]
    M, W = ds.get_MW(G, H, mode="I")
    ctx.close("matrices", M, np.diag(1 / G.sum(1)), rtol=1e-9, what="M of I")
    ctx.close("matrices", W, row(H), rtol=1e-9, what="W of I")
    M, W = ds.get_MW(G, H, mode="H^-1")
    ctx.close("matrices", M, np.linalg.inv(H), rtol=1e-7, what="M of H^-1")
    ctx.close("matrices", W, np.eye(nd), rtol=1e-7, what="W of H^-1")
    ev, U = np.linalg.eigh(V)
    for cut in (False, True):
        if cut and nd > 1:  # directions without variance are left out
            ev[0] = 0.0
            V = (U * ev) @ U.conj().T
            good = ev > 0
        else:
            good = ev > -1
        S = (U[:, good] / np.sqrt(ev[good])) @ U[:, good].conj().T
        SH = S @ H
        if np.min(np.abs(SH.sum(1))) < 1e-3 * np.abs(SH).max():
            continue
        if cut and np.linalg.eigh(V)[0][0] > 0:
            continue  # rounding
        M, W = ds.get_MW(G, H, mode="V^-1/2", band_covar=V)
        ctx.close("matrices", W, row(SH), rtol=1e-5, what="W of V^-1/2")
        ctx.close("matrices", M @ H, W, rtol=1e-6, what="M of V^-1/2")
    if nd > 1:
        Hs = H.copy()
        Hs[-1] = Hs[0]
        try:
            np.linalg.inv(Hs)
        except np.linalg.LinAlgError:
            M, W = ds.get_MW(G, Hs, mode="H^-1")
            ctx.close("matrices", M, np.linalg.pinv(Hs, rcond=1e-15), rtol=1e-5, what="M of a singular H")
            ctx.event("singular H")
    for bad in (dict(mode="V^-1/2"), dict(mode="L^-1"), dict(mode="H"), dict(mode="H^-1", exact_norm=True)):
        ctx.raises("matrices", lambda: ds.get_MW(G, H, **bad), (ValueError, NotImplementedError, AssertionError), f"{bad}")
    ctx.equal("matrices", ds.delays().shape, (sc.nd[0],), "delays")
    ctx.close("matrices", ds.delays(), (np.arange(sc.nd[0]) - sc.nd[0] // 2) / sc.nd[0] / np.median(
        np.diff(sc.dsets[0].freq_array[slice(*sc.spws[0])])) * 1e9, rtol=1e-9, what="delays")
    ctx.sig("matrices", w, sc.taper, sc.symmetric, sc.nd[0] == sc.spws[0][1] - sc.spws[0][0])


CASES = [Case("identity", identity, 90, 1200), Case("inverse", inverse, 50, 500), Case("exact", exact, 40, 500),
         Case("dayenu", dayenu, 50, 600), Case("ext", ext, 30, 300), Case("inverse_cov", inverse_cov, 40, 400),
         Case("decorrelated", decorrelated, 25, 250), Case("matrices", matrices, 60, 600)]
