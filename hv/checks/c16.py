"""C16: units, wave-vectors, cosmology and differences of spectra held in UVPSpec objects."""
import copy
import os

import numpy as np
from hera_pspec import conversions
from hera_pspec import uvpspec_utils as uvputils

from hv import cosmo, gen, oqe
from hv.core import Case

ID = "C16"
RULE = ("random spectra objects (ragged baseline pairs, several windows and polarizations, folded or not, with covariances and error "
        "statistics, with or without the h convention) and random cosmologies and beams; every number is compared with a direct "
        "calculation from antenna positions, frequencies and the beam; distinct = distinct shape of object, operation and options")
REQUIRE = {"geometry": 200, "k": 200, "deltasq": 200, "scalar": 100, "cosmology": 150, "keep": 100, "subtract": 250, "refused": 20,
           "stats": 150, "groups": 80}
ASSUMPTIONS = ["difference of covariances and window functions is not judged",
               "cosmology is not changed after conversion to Delta^2"]


def lcdm(rng):
    if rng.random() < 0.4:
        return {}, cosmo.LCDM(**cosmo.DEF)
    L = float(rng.uniform(0.6, 0.8))
    m = (1 - L) * (rng.uniform(0.7, 1.2) if rng.random() < 0.4 else 1.0)
    kw = dict(Om_L=L, Om_b=0.16 * m, Om_c=0.84 * m, H0=float(rng.uniform(55, 85)))
    return kw, cosmo.LCDM(**kw)


def spws_of(u):
    return [(u.freq_array[u.spw_freq_array == s], u.dly_array[u.spw_dly_array == s]) for s in range(u.Nspws)]


def rows_len(u, ant):
    """Mean of the two baseline lengths of every spectrum."""
    out = []
    for b in u.blpair_array.tolist():
        bb = []
        for q in (b // 10**6, b % 10**6):
            i, j = q // 1000 - 100, q % 1000 - 100
            bb.append(np.linalg.norm(ant[i] - ant[j]))
        out.append(np.mean(bb))
    return np.array(out)


def kmag(u, s, L, h, ant, folded=False):
    f, d = spws_of(u)[s]
    nu = cosmo.F21 / (1 + L.f2z(np.mean(f)))
    kp = L.kperp(rows_len(u, ant), nu, h=h)
    kz = L.kpara(d, nu, h=h)
    if folded:
        kz = kz[d > 1e-12]
    return kp, kz, np.sqrt(kp[:, None]**2 + kz[None]**2)


def build(ctx, **kw):
    rng = ctx.rng
    u = gen.make_uvp(rng, beam=True, redundant=bool(rng.random() < 0.5), **kw)
    ckw, L = lcdm(rng)
    u.cosmo = conversions.Cosmo_Conversions(**ckw)
    ant = u._hv_antpos
    fold = bool(rng.random() < 0.35)
    if rng.random() < 0.3:
        u.norm_units = "Mpc^3"
    if fold:
        u.fold_spectra()
    ctx.note(uvp=gen.describe(u), cosmo=ckw, units=u.norm_units)
    return u, ant, L, fold


def wave(ctx):
    rng = ctx.rng
    u, ant, L, fold = build(ctx, ndly_mode=None)
    ctx.sig("wave", u.Nspws, u.Nblpairs, fold, u.Nbltpairs != u.Nblpairs * u.Ntpairs, round(L.Om_k, 2))
    # geometry
    enu = u.get_ENU_bl_vecs()
    for q, v in zip(u.bl_array.tolist(), enu):
        ctx.close("geometry", v, ant[q // 1000 - 100] - ant[q % 1000 - 100], atol=1e-4, what="baseline vector")
    seps = rows_len(u, ant)
    ctx.close("geometry", u.get_blpair_seps(), seps, atol=1e-4, what="lengths of the baseline pairs")
    uniq = list(dict.fromkeys(u.blpair_array.tolist()))
    for second in (False, True):
        w = []
        for b in uniq:
            q = b % 10**6 if second else b // 10**6
            w.append(ant[q // 1000 - 100] - ant[q % 1000 - 100])
        ctx.close("geometry", u.get_blpair_blvecs(use_second_bl=second), np.array(w), atol=1e-4, what="vectors of the pairs")
    for s in range(u.Nspws):
        for h in (True, False):
            kp, kz, km = kmag(u, s, L, h, ant, fold)
            ctx.close("k", u.get_kperps(s, little_h=h), kp, rtol=1e-5, atol=1e-9, what="k perpendicular")
            ctx.close("k", u.get_kparas(s, little_h=h), kz, rtol=1e-5, what="k parallel")
            d = rng.uniform(-1e-6, 1e-6, 3)
            f = np.mean(spws_of(u)[s][0])
            ctx.close("k", u.get_kparas(s, little_h=h, dlys=list(d)), L.kpara(d, f, h=h), rtol=1e-5, what="k parallel of given delays")
        ctx.equal("k", (u.get_kperps(s).tolist(), u.get_kparas(s).tolist()),
                  (u.get_kperps(s, little_h=True).tolist(), u.get_kparas(s, little_h=True).tolist()), "default is h/Mpc")
    ctx.equal("keep", u.units, f"({u.vis_units})^2 {u.norm_units}", "units")


def deltasq(ctx):
    rng = ctx.rng
    u, ant, L, fold = build(ctx)
    h = "h^-3" in u.norm_units
    before = copy.deepcopy(u)
    if rng.random() < 0.5:
        v = u.convert_to_deltasq(inplace=False)
        ctx.check("keep", gen.same_state(gen.snapshot(before), gen.snapshot(u)) is None, "input of a copy is kept")
    else:
        ctx.check("keep", u.convert_to_deltasq(inplace=True) is None)
        v = u
    u = before
    ctx.sig("deltasq", fold, h, u.Nspws, hasattr(u, "cov_array_real"), hasattr(u, "stats_array"))
    ctx.equal("deltasq", v.norm_units, u.norm_units + " k^3 / (2pi^2)", "units")
    for s in range(u.Nspws):
        d = spws_of(u)[s][1]
        _, _, km = kmag(u, s, L, h, ant)
        c = (km**3 / (2 * np.pi**2))[:, :, None]
        keep = d > 1e-12 if fold else np.ones(len(d), bool)
        ctx.close_rel("deltasq", v.data_array[s][:, keep], (u.data_array[s] * c)[:, keep], rtol=1e-4, atol=1e-12, what="data")
        for k in getattr(u, "stats_array", {}):
            ctx.close_rel("deltasq", v.stats_array[k][s][:, keep], (u.stats_array[k][s] * c)[:, keep], rtol=1e-4, atol=1e-12, what="statistics")
        if hasattr(u, "cov_array_real"):
            cc = c[:, :, None] * c[:, None]
            for a in ("cov_array_real", "cov_array_imag"):
                ctx.close_rel("deltasq", getattr(v, a)[s][:, keep][:, :, keep], (getattr(u, a)[s] * cc)[:, keep][:, :, keep], rtol=1e-4, atol=1e-12,
                              what="covariance")
    rest = ("data_array", "stats_array", "cov_array_real", "cov_array_imag", "norm_units")
    a, b = gen.snapshot(u), gen.snapshot(v)
    for k in rest:
        a.pop(k, None)
        b.pop(k, None)
    ctx.equal("keep", gen.same_state(a, b), None, "everything else is kept")


def scalar_want(L, bf, op, opp, f, taper, h, noise=False):
    """Direct sum over the channels."""
    nf = len(f)
    df = np.median(np.diff(f))
    sub = (np.arange(20) + 0.5) / 20 - 0.5
    w = np.ones(nf) if noise or taper == "none" else oqe.taper(taper, nf)**2
    r = np.polyfit(bf / 1e8, np.log(opp / op**2), 6)
    tot = 0.0
    for c in range(nf):
        nu = f[c] + df * (sub + (0.5 if taper == "none" or noise else 0.0))
        # the top-hat window runs from the first channel to one past the last
        tot += w[c] * np.mean([np.exp(np.polyval(r, x / 1e8)) / L.X2Y(L.f2z(x), h=h) for x in nu]) * df
    b = nf * df
    return b / tot if noise else b**2 / tot


def omegas(u, j):
    return u.beam_freqs, u.OmegaP[:, j], u.OmegaPP[:, j]


def scalars(ctx):
    rng = ctx.rng
    u, ant, L, fold = build(ctx, nspw=int(rng.integers(1, 3)), ntimes=1, nblp=2, min_nf=8, max_nf=20)
    names = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
    for s in range(u.Nspws):
        f = spws_of(u)[s][0]
        for j, pp in enumerate(u.polpair_array.tolist()):
            h = bool(rng.random() < 0.5)
            noise = bool(rng.random() < 0.5)
            t = (pp // 100 - 20, pp % 100 - 20)
            arg = [pp, t, tuple(names[p] for p in t)][int(rng.integers(3))]
            if arg == pp and t[0] == t[1] and rng.random() < 0.5:
                arg = names[t[0]]
            g = u.compute_scalar(s, arg, little_h=h, noise_scalar=noise, num_steps=int(rng.choice([500, 1000, 3000])))
            w = scalar_want(L, *omegas(u, j), f, u.taper, h, noise)
            ctx.sig("scalar", u.taper, h, noise, j)
            ctx.close("scalar", g / w, 1.0, atol=0.01 if u.taper == "none" or noise else 0.03, what=f"scalar {arg} {u.taper} noise={noise} h={h}")
            ctx.close("scalar", u.compute_scalar(s, pp, little_h=not h, noise_scalar=noise) / u.compute_scalar(s, pp, little_h=h, noise_scalar=noise),
                      L.h**(3 if not h else -3), rtol=1e-5, what="h convention")
    del u.OmegaP
    ctx.raises("refused", lambda: u.compute_scalar(0, int(u.polpair_array[0])), Exception, "no beam")


def set_cosmology(ctx):
    rng = ctx.rng
    u, ant, L, fold = build(ctx, nspw=int(rng.integers(1, 3)), ntimes=2, nblp=3, npol=int(rng.integers(1, 3)))
    orig_has = rng.random() < 0.8
    if not orig_has:
        del u.cosmo
        u.norm_units = "Hz str"
    before = copy.deepcopy(u)
    kw, L2 = lcdm(rng)
    new = conversions.Cosmo_Conversions(**kw)
    arg = dict(new.get_params()) if rng.random() < 0.4 else new
    newbeam = None
    if rng.random() < 0.4:
        pols = sorted({p for pp in u.polpair_array.tolist() for p in (pp // 100 - 20, pp % 100 - 20)})
        mixed = any(pp // 100 != pp % 100 for pp in u.polpair_array.tolist())
        names = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
        if not mixed:
            newbeam = gen.make_beam(rng, "array" if rng.random() < 0.7 else "gauss", pols=[names[p] for p in pols])
    if orig_has:
        with ctx_quiet():
            u.set_cosmology(new, overwrite=False, verbose=False)
        ctx.equal("keep", gen.same_state(gen.snapshot(before), gen.snapshot(u)), None, "not overwritten unless asked")
    if rng.random() < 0.3 and newbeam is None:
        x = copy.deepcopy(u)
        del x.OmegaP
        y = copy.deepcopy(x)
        with ctx_quiet():
            x.set_cosmology(new, overwrite=True, verbose=False)
        ctx.equal("keep", gen.same_state(gen.snapshot(y), gen.snapshot(x)), None, "nothing without a beam")
    with ctx_quiet():
        u.set_cosmology(arg, overwrite=orig_has or bool(rng.random() < 0.5), new_beam=newbeam, verbose=bool(rng.random() < 0.2))
    ctx.check("cosmology", u.cosmo == new, "adopted")
    units = before.norm_units if "Mpc" in before.norm_units else "h^-3 Mpc^3"
    ctx.equal("cosmology", u.norm_units, units, "units")
    h = "h^-3" in units
    ctx.sig("set", orig_has, newbeam is not None, h, isinstance(arg, dict), fold)
    for s in range(u.Nspws):
        f = spws_of(u)[s][0]
        for j, pp in enumerate(u.polpair_array.tolist()):
            if newbeam is not None:
                op, opp = newbeam.get_Omegas([pp])
                ctx.close("cosmology", u.OmegaP[:, j], op[:, 0], rtol=1e-12, what="new beam")
                ctx.close("cosmology", u.OmegaPP[:, j], opp[:, 0], rtol=1e-12, what="new beam")
            w = scalar_want(L2, *omegas(u, j), f, u.taper, h)
            ctx.close("cosmology", u.scalar_array[s, j] / w, 1.0, atol=0.01 if u.taper == "none" else 0.12, what="scalar")
            ctx.close("cosmology", u.scalar_array[s, j], u.compute_scalar(s, pp, little_h=h, num_steps=1000), rtol=1e-10, what="scalar kept")
            r = u.scalar_array[s, j] / before.scalar_array[s, j]
            ctx.close_rel("cosmology", u.data_array[s][..., j], before.data_array[s][..., j] * r, rtol=1e-9, what="data")
            for k in getattr(before, "stats_array", {}):
                ctx.close_rel("cosmology", u.stats_array[k][s][..., j], before.stats_array[k][s][..., j] * r, rtol=1e-9, what=f"statistic {k}")
            if hasattr(before, "cov_array_real"):
                for a in ("cov_array_real", "cov_array_imag"):
                    ctx.close_rel("cosmology", getattr(u, a)[s][..., j], getattr(before, a)[s][..., j] * r**2, rtol=1e-9, what="covariance")
    skip = ("data_array", "stats_array", "cov_array_real", "cov_array_imag", "norm_units", "cosmo", "scalar_array", "OmegaP", "OmegaPP", "beam_freqs")
    a, b = gen.snapshot(before), gen.snapshot(u)
    for k in skip:
        a.pop(k, None)
        b.pop(k, None)
    ctx.equal("keep", gen.same_state(a, b), None, "everything else is kept")
    # there and back, once the normalization is the object's own
    x = copy.deepcopy(u)
    k3 = conversions.Cosmo_Conversions(H0=60.0)
    with ctx_quiet():
        x.set_cosmology(k3, overwrite=True, verbose=False)
        x.set_cosmology(new, overwrite=True, verbose=False)
    ctx.equal("cosmology", gen.same_state(gen.snapshot(u), gen.snapshot(x), rtol=1e-9), None, "there and back")


class ctx_quiet:
    def __enter__(self):
        import sys
        self.o, self.f = sys.stdout, open(os.devnull, "w")
        sys.stdout = self.f

    def __exit__(self, *a):
        import sys
        sys.stdout = self.o
        self.f.close()


def subtract(ctx):
    """The difference of matching spectra."""
    rng = ctx.rng
    u, ant, L, fold = build(ctx, nspw=int(rng.integers(1, 4)), ntimes=int(rng.integers(1, 5)), nblp=int(rng.integers(1, 4)),
                            npol=int(rng.integers(1, 4)), ragged=False, diff_times=False, window=bool(rng.random() < 0.4))
    v = copy.deepcopy(u)
    for s in range(v.Nspws):
        sh = v.data_array[s].shape
        v.data_array[s] = v.data_array[s] + rng.normal(size=sh) + 1j * rng.normal(size=sh)
        v.nsample_array[s] = v.nsample_array[s] * rng.uniform(0.5, 2, v.nsample_array[s].shape)
        v.integration_array[s] = v.integration_array[s] * rng.uniform(0.5, 2, v.integration_array[s].shape)
        v.wgt_array[s] = v.wgt_array[s] * rng.uniform(0.5, 1, v.wgt_array[s].shape)
        for st in getattr(v, "stats_array", {}).values():
            st[s] = st[s].real * rng.uniform(0.5, 2, sh) + 1j * st[s].imag * rng.uniform(0.5, 2, sh)
    shift = float(rng.choice([0, 0, 10, 365])) * 0.99726957  # another night, same LSTs
    for a in ("time_1_array", "time_2_array", "time_avg_array"):
        setattr(v, a, getattr(v, a) + shift)
    if rng.random() < 0.6:
        v = gen.permute(v, rows=rng.permutation(v.Nbltpairs), pols=rng.permutation(v.Npols) if rng.random() < 0.7 else None)
    # parts that only one of them has
    for x in (u, v):
        if rng.random() < 0.3 and x.Npols > 1:
            x.select(polpairs=[int(p) for p in rng.permutation(x.polpair_array)[: x.Npols - 1]], inplace=True)
        if rng.random() < 0.3 and x.Nblpairs > 1:
            b = list(dict.fromkeys(x.blpair_array.tolist()))
            x.select(blpairs=[b[i] for i in rng.permutation(len(b))[1:]], inplace=True)
        if rng.random() < 0.3 and x.Ntimes > 1:
            l = np.unique(x.lst_avg_array)
            x.select(lsts=l[rng.permutation(len(l))[1:]], inplace=True)
        if rng.random() < 0.3 and x.Nspws > 1:
            x.select(spws=sorted(int(i) for i in rng.permutation(x.Nspws)[1:]), inplace=True)

    def table(x, ints=True):
        out = {}
        for k, r in gen.records(x).items():
            out[k[:4] + (round(float(r["lst_avg"]), 9),) + k[6:]] = (k, r)
        return out

    a, b = table(u), table(v)
    common = set(a) & set(b)
    keepu, keepv = gen.snapshot(u), gen.snapshot(v)
    if not common:
        ctx.raises("refused", lambda: uvputils.subtract_uvp(u, v), Exception, "nothing in common")
        return
    try:
        d = uvputils.subtract_uvp(u, v, run_check=bool(rng.random() < 0.8))
    except ValueError as e:
        ctx.check("subtract", False, f"refused: {e}")
        return
    ctx.equal("keep", gen.same_state(keepu, gen.snapshot(u)), None, "first is kept")
    ctx.equal("keep", gen.same_state(keepv, gen.snapshot(v)), None, "second is kept")
    t = table(d)
    ctx.sig("subtract", fold, len(common) == len(a), len(common) == len(b), u.Nspws, u.Npols, hasattr(u, "stats_array"))
    ctx.equal("subtract", sorted(t), sorted(common), "spectra common to both")
    half = (lambda x, dl: x[dl > 1e-12]) if fold else (lambda x, dl: x)
    for k in t:
        if k not in common:
            continue
        r, p, q = t[k][1], a[k][1], b[k][1]
        dl = r["dlys"]
        ctx.close("subtract", half(r["data"], dl), half(p["data"] - q["data"], dl), rtol=1e-12, what="data")
        ctx.close("subtract", r["nsample"], (p["nsample"]**-2 + q["nsample"]**-2)**-0.5, rtol=1e-10, what="samples")
        ctx.close("subtract", r["integ"], (p["integ"]**-2 + q["integ"]**-2)**-0.5, rtol=1e-10, what="integration")
        w = (p["wgts"]**-2.0 + q["wgts"]**-2.0)**-0.5
        ctx.close("subtract", r["wgts"] / r["wgts"].max(), w / w.max(), rtol=1e-10, what="weights")
        for n in [n for n in p if n.startswith("stat")]:
            wn = np.hypot(p[n].real, q[n].real) + 1j * np.hypot(p[n].imag, q[n].imag)
            ctx.close("subtract", half(r[n], dl), half(wn, dl), rtol=1e-10, what=n)
        for n in ("freqs", "dlys", "lst_avg", "time_avg", "scalar"):
            ctx.equal("subtract", np.asarray(r[n]).tolist(), np.asarray(p[n]).tolist(), n)
    # a baseline pair held at other LSTs
    if u.Nblpairs > 1 and u.Ntimes > 1 and not fold:
        b0 = u.blpair_array[0]
        rows = np.where(u.blpair_array == b0)[0]
        x = copy.deepcopy(u)
        x.lst_avg_array = x.lst_avg_array.copy()
        x.lst_avg_array[rows[0]] = x.lst_avg_array[rows[0]] + 1e-5
        ctx.raises("refused", lambda: uvputils.subtract_uvp(u, x), ValueError, "one pair at another LST")


def stats(ctx):
    rng = ctx.rng
    u, ant, L, fold = build(ctx, stats=bool(rng.random() < 0.5), ndly_mode="same", min_nf=5)
    had = list(getattr(u, "stats_array", {}))
    before = copy.deepcopy(u)
    name = "err" if rng.random() < 0.6 or not had else had[0]
    vals = {}
    keys = [(s, b, p) for s in range(u.Nspws) for b in dict.fromkeys(u.blpair_array.tolist()) for p in u.polpair_array.tolist()]
    todo = [keys[i] for i in rng.permutation(len(keys))[: int(rng.integers(1, len(keys) + 1))]]
    for s, b, p in todo:
        rows = np.where(u.blpair_array == b)[0]
        nd = len(spws_of(u)[s][1])
        x = rng.normal(size=(len(rows), nd)) + (1j * rng.normal(size=(len(rows), nd)) if name in had else 0)
        tup = ((b // 10**9 - 100, b // 10**6 % 1000 - 100), (b // 1000 % 1000 - 100, b % 1000 - 100))
        k = (s, b if rng.random() < 0.5 else tup, p)
        u.set_stats(name, k, x)
        vals[s, b, p] = x
        ctx.raises("refused", lambda: u.set_stats(name, k, x[:, :-1]), ValueError, "other shape")
    ctx.sig("stats", name in had, len(todo) == len(keys), fold, u.Nspws)
    for s, b, p in keys:
        rows = np.where(u.blpair_array == b)[0]
        j = u.polpair_array.tolist().index(p)
        dl = spws_of(u)[s][1]
        g = u.get_stats(name, (s, b, p))
        if (s, b, p) in vals:
            w = vals[s, b, p]
        elif name in had:
            w = before.stats_array[name][s][rows][:, :, j]
        else:
            w = np.full((len(rows), len(dl)), np.nan)
        ctx.close("stats", g, w[:, dl > 1e-12] if fold else w, rtol=0, what="statistic")
        for n in had:
            if n != name:
                ctx.close("stats", u.stats_array[n][s][rows][:, :, j], before.stats_array[n][s][rows][:, :, j], rtol=0, what="other statistic")
    # wedge
    m, b0 = float(rng.choice([0.0, rng.uniform(1, 20)])), float(rng.uniform(0, 800))
    above, val = bool(rng.random() < 0.5), float(rng.choice([1e20, np.inf, 7.0]))
    x = copy.deepcopy(u)
    x.set_stats_slice(name, m, b0, above=above, val=val)
    sep = rows_len(u, ant)
    for s in range(u.Nspws):
        dl = spws_of(u)[s][1]
        lim = sep[:, None] * m + b0
        near = np.abs(np.abs(dl[None] * 1e9) - lim) < 1e-6 * (1 + lim)
        hit = (np.abs(dl[None] * 1e9) > lim) if above else (np.abs(dl[None] * 1e9) < lim)
        w = u.stats_array[name][s].copy()
        w[hit] = val
        g = x.stats_array[name][s]
        ok = ~near
        if fold:
            ok &= dl[None] > 1e-12
        ctx.close("stats", g[ok], w[ok], rtol=0, what="wedge")
        ctx.equal("stats", gen.same_state(u.data_array[s], x.data_array[s]), None, "data kept")
    for n in u.stats_array:
        if n != name:
            ctx.equal("stats", gen.same_state(u.stats_array[n], x.stats_array[n]), None, "other statistic kept")
    ctx.raises("refused", lambda: x.set_stats_slice("nothing", 0, 0), Exception, "unknown statistic")


def groups(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng, nblp=int(rng.integers(2, 9)), nspw=1)
    bls = u.bl_array.tolist()
    gr, tup = [], bool(rng.random() < 0.5)
    for _ in range(int(rng.integers(1, 4))):
        g = [bls[i] for i in rng.permutation(len(bls))[: int(rng.integers(1, len(bls) + 1))]]
        gr.append(g)
    arg = [[(b // 1000 - 100, b % 1000 - 100) for b in g] for g in gr] if tup else gr
    both = bool(rng.random() < 0.5)
    got = u.get_blpair_groups_from_bl_groups(arg, only_pairs_in_bls=both)
    want = []
    for g in gr:
        f = all if both else any
        w = sorted({b for b in u.blpair_array.tolist() if f(q in g for q in (b // 10**6, b % 10**6))})
        if w:
            want.append(w)
    ctx.sig("groups", tup, both, len(gr), len(want))
    ctx.equal("groups", [[int(b) for b in g] for g in got], want, "groups of pairs")


CASES = [Case("wave", wave, 60, 1200), Case("deltasq", deltasq, 50, 1000), Case("scalars", scalars, 25, 400),
         Case("set_cosmology", set_cosmology, 20, 300), Case("subtract", subtract, 80, 1500), Case("stats", stats, 50, 1000),
         Case("groups", groups, 100, 1500)]
