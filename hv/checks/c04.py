"""C04: bandpower covariances are the Gaussian propagation of the stated input covariances."""
import itertools

import numpy as np

from hv import oqe, scene, vis
from hv.core import Case

ID = "C04"
RULE = ("random datasets (amplitudes from 1e-6 to 1e4), error models (empirical, given errors, autocorrelations, foregrounds, given "
        "covariances), weightings, normalizations and windows; the covariance stored for every spectrum and time is "
        "recomputed by Isserlis' theorem from the raw arrays; distinct = distinct combination of settings")
REQUIRE = {"covariance": 600, "diagonal": 100, "structure": 600, "unnormalized": 60, "scaling": 20}
ASSUMPTIONS = ["input covariances are generic: no eigenvalue truncation or pseudo-inverse at the edge of its tolerance"]

MODELS = ["empirical", "dsets", "autos", "foreground_dependent", "given"]


def given_covariances(rng, sc, name):
    """Physical joint covariances of every pair of visibilities and time, for the full band."""
    out = {}
    keys = {(d, bl + (p,)) for k, d in enumerate(sc.pair) for bl in (sc.b1, sc.b2)[k] for pp in sc.polpairs for p in (pp[k],)}
    keys = sorted(keys, key=repr)
    N = sc.nfreqs
    for t in range(sc.ntimes):
        A = {k: rng.normal(size=(N, 2 * N)) + 1j * rng.normal(size=(N, 2 * N)) for k in keys}
        B = {k: rng.normal(size=(N, 2 * N)) + 1j * rng.normal(size=(N, 2 * N)) for k in keys}
        for a, b in itertools.product(keys, keys):
            C = A[a] @ A[b].conj().T + B[a] @ B[b].conj().T
            P = A[a] @ B[b].T + B[a] @ A[b].T
            for (c1, c2), m in (((False, True), C), ((False, False), P), ((True, True), P.conj()), ((True, False), C.conj())):
                out[((a[0], b[0]), (a[1], b[1]), name, t, c1, c2)] = m
    return out


def auto_var(sc, d, bl, pol, sl, t):
    u = sc.dsets[d]
    a = [vis.wf(u, (k, k), pol)[t, sl] for k in bl]
    n = vis.wf(u, bl, pol, "nsample")[t, sl]
    good = n > 0
    n = np.where(good, n, np.median(n[good]) if good.any() else 0)
    with np.errstate(divide="ignore"):
        return np.abs(a[0] * a[1]) / np.median(u.integration_time) / np.asarray(u.channel_width)[sl] / n


def want(ctx, sc, model, known, s, i, pp, scalar, t):
    """Estimate and the covariances of (q, p) real and imaginary parts at one time."""
    E = sc.want(s, i, pp, scalar)
    (x1, w1, _), (x2, w2, _) = E.pieces
    (a, b), e = sc.spws[s], sc.ext[s]
    sl = slice(a - e[0], b + e[1])
    num = [vis.POLNUM[p] for p in pp]
    ks = [(d, bl) for d, bl in zip(sc.pair, (sc.b1[i], sc.b2[i]))]
    kw = {}
    if model == "empirical":
        emp = oqe.empirical
        kw = dict(C11=emp(x1, w1, x1, w1), C22=emp(x2, w2, x2, w2), C12=emp(x1, w1, x2, w2), C21=emp(x2, w2, x1, w1),
                  P11=emp(x1, w1, x1, w1, False, False), S11=emp(x1, w1, x1, w1, True, True),
                  P22=emp(x2, w2, x2, w2, False, False), S22=emp(x2, w2, x2, w2, True, True),
                  P21=emp(x2, w2, x1, w1, False, False), S21=emp(x2, w2, x1, w1, True, True))
    elif model == "dsets":
        D = [np.diag(np.abs(w[:, t] * vis.wf(sc.std[d], bl, p)[t, sl]) ** 2) for (d, bl), p, w in zip(ks, num, (w1, w2))]
        kw = dict(C11=D[0], C22=D[1])
    elif model in ("autos", "foreground_dependent"):
        V = [auto_var(sc, d, bl, p, sl, t) for (d, bl), p in zip(ks, num)]
        kw = dict(C11=np.diag(V[0]), C22=np.diag(V[1]))
    else:
        f = lambda k, l, c1, c2: known[((ks[k][0], ks[l][0]), (ks[k][1] + (pp[k],), ks[l][1] + (pp[l],)), model, t, c1, c2)][sl, sl]
        kw = dict(C11=f(0, 0, False, True), C22=f(1, 1, False, True), C12=f(0, 1, False, True), C21=f(1, 0, False, True),
                  P11=f(0, 0, False, False), S11=f(0, 0, True, True), P22=f(1, 1, False, False), S22=f(1, 1, True, True),
                  P21=f(1, 0, False, False), S21=f(1, 0, True, True))
    if model == "foreground_dependent":
        n1, n2 = kw["C11"], kw["C22"]
        y1, y2 = (w1 * x1)[:, t], (w2 * x2)[:, t]
        Cs = 0.5 * (np.outer(y1, y2.conj()) + np.outer(y2, y1.conj()))
        X = E.E
        tr = lambda p, q: np.einsum("aij,bkl,ki,jl->ab", X, X.conj(), p, q)  # first visibility p, second q
        nn = tr(n1, n2)
        sn = tr(n1, Cs) + tr(Cs, n2)
        d = np.real(np.diag(sn))
        if np.any(np.abs(d) < 1e-9 * np.abs(sn).max()):
            return E, None, None
        sn[d <= 0, :] = 0
        sn[:, d <= 0] = 0
        qqd = nn + sn
        z = np.zeros_like(qqd)
        return E, E.combine(z, qqd, z), E.combine(z, qqd, z, E.T)
    return E, E.covariances(**kw), E.covariances(**kw, T=E.T)


def run(ctx, model, **kw):
    rng = ctx.rng
    amp = float(10 ** rng.uniform(-6, 4)) if model != "given" else 1.0
    args = dict(nfreqs=int(rng.integers(4, 8)), ntimes=int(rng.integers(8, 14)) if model == "empirical" else int(rng.integers(1, 4)),
                nbl=2, npol=int(rng.integers(1, 3)), max_spw=2, amp=amp, std=model == "dsets", autos=model in ("autos", "foreground_dependent"),
                wgts=False, flags=float(rng.choice([0, 0, 0.1])))
    args.update(kw)
    sc = scene.Scene(rng, **args)
    sc.polpairs = sc.polpairs[:2]
    if model in ("autos", "foreground_dependent"):
        for u in sc.dsets:  # a few samples are missing, sometimes a whole integration
            if rng.random() < 0.4:
                u.nsample_array[rng.random(u.nsample_array.shape) < 0.1] = 0
    known = None
    name = model
    if model in ("dsets", "autos") and sc.ntimes > 1 and rng.random() < 0.5:
        # errors that are the same at every time, or at all but one, for some of the baselines
        for us in (sc.std, sc.dsets) if model == "dsets" else (sc.dsets,):
            for d, u in enumerate(us):
                odd = int(rng.integers(1, sc.ntimes))
                for bl in {(int(a), int(b)) for a, b in zip(u.ant_1_array, u.ant_2_array)}:
                    r, _ = vis.rows(u, bl)
                    r = r[np.argsort(u.time_array[r])]
                    keep = rng.random() < 0.6
                    for a in ("data_array", "nsample_array", "flag_array"):
                        if a == "data_array" and (us is sc.dsets) and (model == "dsets" or bl[0] != bl[1]):
                            continue  # the visibilities themselves
                        x = getattr(u, a)
                        v = x[r[odd]].copy()
                        x[r] = x[r[0]]
                        if not keep and a == "data_array":
                            x[r[odd]] = v
    if model == "given":
        name = str(rng.choice(["mine", "foreground+noise"]))
        known = given_covariances(rng, sc, name)
    ctx.note(scene=sc.describe(), model=name, amp=amp)
    diag = bool(rng.random() < 0.3)
    q = bool(rng.random() < 0.25)
    over = dict(store_cov=not diag or bool(rng.random() < 0.5), store_cov_diag=diag, return_q=q, cov_model=name)
    if known is not None:
        over["known_cov"] = known
    try:
        uvp = sc.run(**over)
    except scene.Refused:
        return None
    ctx.equal("structure", hasattr(uvp, "cov_array_real"), not diag, "full covariance stored")
    for s in range(len(sc.spws)):
        for i in range(len(sc.b1)):
            for j, pp in enumerate(sc.polpairs):
                num = tuple(vis.POLNUM[p] for p in pp)
                jj = uvp.polpair_array.tolist().index((20 + num[0]) * 100 + 20 + num[1])
                key = (s, (sc.b1[i], sc.b2[i]), pp)
                for t in range(sc.ntimes):
                    E, cq, cp = want(ctx, sc, name, known, s, i, pp, float(uvp.scalar_array[s, jj]), t)
                    if E.degenerate or cp is None or not np.isfinite(cp).all():
                        ctx.event("degenerate")
                        continue
                    re, im = cq if q else cp
                    sc_ = max(np.abs(re).max(), np.abs(im).max())
                    if diag:
                        g = uvp.get_stats(name + "_diag", key)[t]
                        ok = (np.diag(re) > 1e-9 * sc_) & (np.diag(im) > 1e-9 * sc_)
                        ctx.close("diagonal", g[ok], (np.sqrt(np.diag(re)) + 1j * np.sqrt(np.diag(im)))[ok], rtol=1e-5,
                                  what=f"{key} time {t}")
                    else:
                        gr, gi = uvp.get_cov(key)[t], uvp.get_cov(key, component="imag")[t]
                        ctx.close("unnormalized" if q else "covariance", gr, re, rtol=1e-7, scale=sc_, what=f"real {key} time {t}")
                        ctx.close("unnormalized" if q else "covariance", gi, im, rtol=1e-7, scale=sc_, what=f"imag {key} time {t}")
                        ctx.close("structure", gr, gr.T, rtol=1e-8, scale=sc_, what="symmetric")
                        if model != "foreground_dependent":  # clipped, so not positive definite after mixing delays
                            ctx.check("structure", np.all(np.diag(gr) + np.diag(gi) >= -1e-9 * sc_), "negative variance")
                    if t == 0 and model == "empirical":
                        break
    if model == "empirical" and not diag:
        for s in uvp.cov_array_real:
            for b in np.unique(uvp.blpair_array):
                c = uvp.cov_array_real[s][uvp.blpair_array == b]
                ctx.check("structure", np.array_equal(c, np.broadcast_to(c[:1], c.shape)), "empirical covariance is the same at every time")
    ctx.sig(model, sc.weighting, sc.norm, sc.taper, sc.exact, any(sum(e) for e in sc.ext), diag, q, len(sc.polpairs), sc.beam is not None)
    ctx.sample(scene=sc.describe(), model=name)
    return sc, uvp, over


def identity(ctx):
    run(ctx, MODELS[ctx.index % 5], ext=bool(ctx.rng.random() < 0.25))


def exact(ctx):
    run(ctx, MODELS[ctx.index % 5], exact_norm=True)


def inverse(ctx):
    run(ctx, MODELS[ctx.index % 5], norm="H^-1", flags=0.0, taper="none")


def dayenu(ctx):
    run(ctx, MODELS[ctx.index % 5], weighting="dayenu", ext=bool(ctx.rng.random() < 0.4))


def scaling(ctx):
    """Covariances scale with the fourth power of the visibilities."""
    rng = ctx.rng
    model = MODELS[ctx.index % 4]
    r = run(ctx, model, amp=1.0, max_spw=1, nbl=1)
    if r is None:
        return
    sc, uvp, over = r
    k = 2.0 ** int(rng.integers(-26, 17))  # exact in single precision too
    for u in sc.dsets:
        u.data_array *= k
    for u in sc.std:
        if u is not None:
            u.data_array *= k
    v = sc.run(**over)
    for nm, p in (("cov_array_real", 4), ("cov_array_imag", 4)):
        if hasattr(uvp, nm):
            ctx.close("scaling", getattr(v, nm)[0] / k ** p, getattr(uvp, nm)[0], rtol=1e-7,
                      scale=float(np.nanmax(np.abs(uvp.cov_array_real[0]))), what=nm)
    if over["store_cov_diag"]:
        for st in uvp.stats_array:
            g, w = v.stats_array[st][0] / k ** 2, uvp.stats_array[st][0]
            ok = np.isfinite(w)
            ctx.close("scaling", g[ok], w[ok], rtol=1e-4, what=st)


def pieces(ctx):
    """The public unnormalized covariance and its propagation through a normalization matrix."""
    rng = ctx.rng
    sc = scene.Scene(rng, nfreqs=int(rng.integers(4, 8)), ntimes=int(rng.integers(8, 14)), nbl=1, max_spw=1, npol=1, std=True,
                     wgts=False)
    ctx.note(scene=sc.describe())
    ds = sc.make()
    ds.set_taper(sc.taper)
    ds.set_symmetric_taper(sc.symmetric)
    ds.set_spw(sc.spws[0], ndlys=sc.nd[0])
    pp = sc.polpairs[0]
    k1, k2 = (sc.pair[0],) + sc.b1[0] + (pp[0],), (sc.pair[1],) + sc.b2[0] + (pp[1],)
    E = sc.want(0, 0, pp)
    (x1, w1, _), (x2, w2, _) = E.pieces
    emp = oqe.empirical
    X = E.E
    V = (np.einsum("aij,bkl,ki,jl->ab", X, X.conj(), emp(x1, w1, x1, w1), emp(x2, w2, x2, w2))
         + np.einsum("aij,bkl,li,jk->ab", X, X.conj(), emp(x2, w2, x1, w1, True, True), emp(x2, w2, x1, w1, False, False)))
    ctx.close("unnormalized", ds.get_unnormed_V(k1, k2), V, rtol=1e-7, what="empirical V")
    t = int(rng.integers(sc.ntimes))
    D = [np.diag(np.abs(w[:, t] * vis.wf(sc.std[d], bl, vis.POLNUM[p])[t, slice(*sc.spws[0])]) ** 2)
         for d, bl, p, w in zip(sc.pair, (sc.b1[0], sc.b2[0]), pp, (w1, w2))]
    Vd = np.einsum("aij,bkl,ki,jl->ab", X, X.conj(), D[0], D[1])
    ctx.close("unnormalized", ds.get_unnormed_V(k1, k2, model="dsets", time_index=t), Vd, rtol=1e-7, what="V from given errors")
    n = sc.nd[0]
    M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    ctx.close("unnormalized", ds.cov_p_hat(M, np.array([V, Vd])), np.array([M @ V @ M.conj().T, M @ Vd @ M.conj().T]), rtol=1e-9, what="M V M^dagger")
    ctx.close("unnormalized", ds.p_hat(M, E.q), M @ E.q, rtol=1e-9, what="M q")
    # each time may have its own normalization
    nt = sc.ntimes
    Ms = rng.normal(size=(nt, n, n)) + 1j * rng.normal(size=(nt, n, n))
    for model in ("empirical", "dsets"):
        out = ds.get_analytic_covariance(k1, k2, Ms, model=model)
        for t in rng.permutation(nt)[:3]:
            one = ds.get_analytic_covariance(k1, k2, Ms[t], model=model)
            for a, b, nm in zip(out, one, ("q real", "q imag", "p real", "p imag")):
                ctx.close("unnormalized", a[t], b[t], rtol=1e-8, scale=float(np.abs(b[t]).max()), what=f"{model} {nm} with a normalization per time")
    C = ds.C_model(k1)
    ctx.close("structure", C, C.conj().T, rtol=1e-9, what="Hermitian")
    ctx.close("structure", C, emp(x1, w1, x1, w1), rtol=1e-7, what="empirical C")


CASES = [Case("identity", identity, 60, 800), Case("exact", exact, 20, 250), Case("inverse", inverse, 25, 250),
         Case("dayenu", dayenu, 25, 300), Case("scaling", scaling, 24, 200), Case("pieces", pieces, 30, 300)]
