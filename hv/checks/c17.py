"""C17: thermal noise levels."""
import copy
import warnings

import numpy as np
from hera_pspec import PSpecData, conversions, noise, pspecbeam, utils

from hv import cosmo, gen, oqe, vis
from hv.checks import c16
from hv.core import Case

ID = "C17"
RULE = ("random spectra objects with matching auto-correlations (flags, interleaved times, different temperature for every antenna, "
        "polarization, channel and time) and random settings, against the radiometer formula evaluated directly; and pure-noise "
        "visibilities whose measured scatter must agree with the predicted one; distinct = distinct shape of object and options")
REQUIRE = {"formula": 300, "sense": 60, "spectra": 200, "P_N": 200, "P_SN": 100, "correction": 100, "keep": 50, "tsys": 100,
           "calibration": 20, "covariance": 40, "refused": 20}
ASSUMPTIONS = ["auto-correlations of all antennas are held at the same times in the same order",
               "scatter of simulated noise agrees with its expectation to 12% (at least 4000 products each)"]


def pn(scalar, T, t, ninc=None, ncoh=1, form="Pk", k=None, comp="real"):
    p = scalar * T**2 * 1e6 / t / ncoh
    if ninc is not None:
        p = p / np.sqrt(ninc)
    if comp != "abs":
        p = p / np.sqrt(2)
    if form == "DelSq":
        p = p * np.abs(k)**3 / (2 * np.pi**2)
    return p


def formula(ctx):
    rng = ctx.rng
    for _ in range(8):
        sc, T, t = 10 ** rng.uniform(-2, 12), rng.uniform(50, 1000), rng.uniform(1, 1000)
        kw, form, comp = {}, str(rng.choice(["Pk", "DelSq"])), str(rng.choice(["abs", "real", "imag"]))
        if rng.random() < 0.6:
            kw["Ncoherent"] = int(rng.integers(1, 50))
        if rng.random() < 0.6:
            kw["Nincoherent"] = float(rng.choice([1, 7, 1000.5]))
        k = rng.uniform(0.01, 3, int(rng.integers(1, 9)))
        if form == "DelSq":
            kw["k"] = k
        w = pn(sc, T, t, kw.get("Nincoherent"), kw.get("Ncoherent", 1), form, k, comp)
        ctx.sig("formula", form, comp, "Ncoherent" in kw, "Nincoherent" in kw)
        k0 = k.copy()
        ctx.close_rel("formula", noise.calc_P_N(sc, T, t, form=form, component=comp, **kw), w, rtol=1e-10, what=f"{form} {comp} {kw}")
        ctx.close_rel("formula", noise.calc_P_N(sc, T, t, form=form, **kw), pn(sc, T, t, kw.get("Nincoherent"), kw.get("Ncoherent", 1), form, k),
                      rtol=1e-10, what="one component by default")
        ctx.check("formula", np.array_equal(k, k0))
        s = noise.Sensitivity()
        s.scalar = sc
        ctx.close_rel("formula", s.calc_P_N(T, t, form=form, component=comp, **kw), w, rtol=1e-10, what="object")
    ctx.raises("refused", lambda: noise.calc_P_N(1., 1., 1., form="DelSq"), Exception, "no k")
    ctx.raises("refused", lambda: noise.calc_P_N(1., 1., 1., form="foo"), Exception, "form")
    ctx.raises("refused", lambda: noise.calc_P_N(1., 1., 1., component="foo"), Exception, "component")
    ctx.raises("refused", lambda: noise.Sensitivity().calc_P_N(1., 1.), Exception, "no scalar")
    # scalar from a beam
    kw, L = c16.lcdm(rng)
    c = conversions.Cosmo_Conversions(**kw)
    bf = np.arange(90e6, 200e6, 1e6)
    op = rng.uniform(0.05, 0.15) * (bf / 150e6) ** rng.uniform(-2, -1)
    opp = 0.5 * op * (bf / 150e6) ** rng.uniform(-0.3, 0.3)
    other = conversions.Cosmo_Conversions(H0=100.)
    mode = int(rng.integers(4))
    beam = pspecbeam.PSpecBeamFromArray({"pI": op.copy()}, {"pI": opp.copy()}, bf, cosmo={0: None, 1: c, 2: other, 3: c}[mode])
    carg = [c, c.get_params(), str(c.get_params())][int(rng.integers(3))]
    if mode == 0 or mode == 2:
        s = noise.Sensitivity(cosmo=carg, beam=beam)
    elif mode == 1:
        s = noise.Sensitivity(beam=beam)
    else:
        s = noise.Sensitivity()
        s.set_cosmology(carg)
        s.set_beam(beam)
    n, df = int(rng.integers(30, 100)), 1e5
    f = rng.uniform(110e6, 170e6) + df * np.arange(n)
    h = bool(rng.random() < 0.5)
    s.calc_scalar(f, "pI", num_steps=int(rng.choice([500, 2000])), little_h=h)
    w = c16.scalar_want(L, bf, op, opp, f, "none", h, noise=True)
    ctx.sig("sense", mode, h, type(carg).__name__)
    ctx.close("sense", s.scalar / w, 1.0, atol=0.02, what=f"noise scalar (cosmology mode {mode})")
    ctx.check("sense", s.cosmo == c and s.pol == "pI" and np.array_equal(s.subband, f), "what it was computed for")


def spectra(ctx):
    """Noise spectra of a spectra object."""
    rng = ctx.rng
    u, ant, L, fold = c16.build(ctx, ndly_mode=None)
    keep = gen.snapshot(u)
    names = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
    allb = list(dict.fromkeys(u.blpair_array.tolist()))
    for _ in range(3):
        s = int(rng.integers(u.Nspws))
        j = int(rng.integers(u.Npols))
        pp = int(u.polpair_array[j])
        t = (pp // 100 - 20, pp % 100 - 20)
        arg = [pp, tuple(names[p] for p in t), names[t[0]] if t[0] == t[1] else pp][int(rng.integers(3))]
        h, form, comp = bool(rng.random() < 0.5), str(rng.choice(["Pk", "DelSq"])), str(rng.choice(["abs", "real", "imag"]))
        kw = dict(little_h=h, form=form, component=comp)
        if rng.random() < 0.7:
            kw["scalar"] = sc = float(10 ** rng.uniform(0, 10))
        else:
            sc = c16.scalar_want(L, *c16.omegas(u, j), c16.spws_of(u)[s][0], "none", h, noise=True)
        blps = allb
        if rng.random() < 0.5:
            blps = [allb[i] for i in rng.permutation(len(allb))[: int(rng.integers(1, len(allb) + 1))]]
            kw["blpairs"] = blps
            if rng.random() < 0.5:
                kw["blpairs"] = [((b // 10**9 - 100, b // 10**6 % 1000 - 100), (b // 1000 % 1000 - 100, b % 1000 - 100)) for b in blps]
        kind = int(rng.integers(4))
        nr = {b: int(np.sum(u.blpair_array == b)) for b in blps}
        if kind == 0:
            T = float(rng.uniform(100, 500))
            Tr = {b: np.full(nr[b], T) for b in blps}
        elif kind == 1 and len(set(nr.values())) == 1:
            T = rng.uniform(100, 500, nr[blps[0]])
            Tr = {b: T for b in blps}
        elif kind == 2:
            T = {b: float(rng.uniform(100, 500)) for b in blps}
            Tr = {b: np.full(nr[b], T[b]) for b in blps}
        else:
            T = {b: rng.uniform(100, 500, nr[b]) for b in blps}
            Tr = T
        g = u.generate_noise_spectra(s, arg, T, **kw)
        ctx.sig("spectra", form, comp, h, kind, fold, "scalar" in kw, len(set(nr.values())) > 1)
        ctx.equal("spectra", sorted(g), sorted(blps), "baseline pairs")
        kp, kz, km = c16.kmag(u, s, L, h, ant, fold)
        for b in blps:
            rows = np.where(u.blpair_array == b)[0]
            w = [pn(sc, Tr[b][m], u.integration_array[s][r, j], u.nsample_array[s][r, j], 1, form, km[r], comp) * np.ones(len(kz)) for m, r in enumerate(rows)]
            ctx.close_rel("spectra", np.asarray(g[b]), np.array(w), rtol=1e-4 if "scalar" in kw else 0.02, atol=1e-9 * np.max(w), what=f"{form} {comp} h={h}")
    ctx.equal("keep", gen.same_state(keep, gen.snapshot(u)), None, "object is kept")


def autos_for(rng, u, ants, flag):
    """Auto-correlations (kelvin) at the times of a spectra object."""
    df = float(u.channel_width[0])
    times = np.unique(np.concatenate([u.time_1_array, u.time_2_array]))
    f0 = min(f[0] for f, _ in c16.spws_of(u)) - 3 * df
    f1 = max(f[-1] for f, _ in c16.spws_of(u)) + 4 * df
    nf = int(round((f1 - f0) / df))
    names = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
    need = list(dict.fromkeys(names[-5] if p == -5 else "yy" if p == -6 else "pI" for p in (q // 100 - 20 for q in u.polpair_array.tolist())))
    # instrumental and pseudo-Stokes data are not held together
    from pyuvdata import UVData
    tel = vis.telescope(ants)
    bls = [(a, a) for a in sorted(ants)]
    a = UVData.new(freq_array=f0 + df * np.arange(nf), polarization_array=np.array([vis.POLNUM[p] for p in need]), times=times,
                   telescope=tel, antpairs=np.array(bls), do_blt_outer=True, integration_time=10.0, vis_units="Jy", empty=True,
                   channel_width=df, time_axis_faster_than_bls=bool(rng.random() < 0.5))
    sh = a.data_array.shape
    a.data_array = rng.uniform(100, 600, sh) + 0j
    a.flag_array = np.zeros(sh, bool)
    if flag:
        a.flag_array = rng.random(sh) < 0.1
        for k in range(int(rng.integers(0, 3))):  # whole integrations of an antenna
            b = bls[int(rng.integers(len(bls)))]
            r, _ = vis.rows(a, b)
            a.flag_array[r[rng.integers(len(r))]] = True
    # LSTs of the spectra as the telescope sees them
    lst = {float(t): float(l) for t, l in zip(a.time_array, a.lst_array)}
    u.lst_1_array = np.array([lst[float(t)] for t in u.time_1_array])
    u.lst_2_array = np.array([lst[float(t)] for t in u.time_2_array])
    return a, need


def pick(T, ok, lst):
    """Temperature(s) allowed at each time: its own, or of the nearest unflagged one(s)."""
    out = []
    good = np.where(ok)[0]
    for i in range(len(T)):
        if ok[i]:
            out.append([T[i]])
        else:
            d = np.abs(lst[good] - lst[i])
            out.append([T[g] for g, x in zip(good, d) if x <= d.min() * 1.01 + 1e-9])
    return out


def error(ctx):
    rng = ctx.rng
    pools = [[(-5, -5), (-6, -6), (-5, -6)], [(1, 1), (2, 2), (3, 3), (4, 4), (1, 2)]]
    pool = pools[int(rng.integers(2))]
    pols = [pool[i] for i in rng.permutation(len(pool))[: int(rng.integers(1, 4))]]
    u = gen.make_uvp(rng, beam=True, pols=pols, flags=False, stats=bool(rng.random() < 0.3), min_nf=5, window=False, cov=False,
                     nspw=int(rng.integers(1, 3)), wrap_lst=False)
    u.taper = str(rng.choice(["none", "bh", "hann"]))
    for s in range(u.Nspws):
        u.data_array[s] = u.data_array[s] * 10 ** rng.uniform(6, 12)
    ckw, L = c16.lcdm(rng)
    u.cosmo = conversions.Cosmo_Conversions(**ckw)
    flag = bool(rng.random() < 0.6)
    a, need = autos_for(rng, u, u._hv_antpos, flag)
    ctx.note(uvp=gen.describe(u), flag=flag)
    kind = ["P_N", "P_SN", ["P_N", "P_SN"], ["P_N"]][int(rng.integers(4))]
    kinds = [kind] if isinstance(kind, str) else kind
    h = bool(rng.random() < 0.7)
    corr = bool(rng.random() < 0.5)
    before = copy.deepcopy(u)
    asnap = vis.snapshot(a)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = utils.uvp_noise_error(u, a, err_type=kind, P_SN_correction=corr, little_h=h, num_steps_scalar=int(rng.choice([500, 2000])))
    ctx.equal("keep", vis.same(a, asnap), None, "autos kept")
    had = set(getattr(before, "stats_array", {}))
    ctx.equal("keep", set(u.stats_array) - had, set(kinds) - had, "statistics added")
    ctx.sig("error", str(kind), corr, h, flag, u.taper, len(pols), u.Nspws, bool(np.any(u.time_1_array != u.time_2_array)))
    x, y = gen.snapshot(before), gen.snapshot(u)
    x.pop("stats_array", None)
    y.pop("stats_array", None)
    ctx.equal("keep", gen.same_state(x, y), None, "all else kept")
    fr = a.freq_array
    first = {}
    for s in range(u.Nspws):
        f, d = c16.spws_of(u)[s]
        ch = [int(np.argmin(np.abs(fr - v))) for v in f]
        w = oqe.taper(u.taper, len(f)) if u.taper != "none" else np.ones(len(f))
        for b in dict.fromkeys(u.blpair_array.tolist()):
            q = [b // 10**9 - 100, b // 10**6 % 1000 - 100, b // 1000 % 1000 - 100, b % 1000 - 100]
            rows = np.where(u.blpair_array == b)[0]
            for j, pp in enumerate(u.polpair_array.tolist()):
                p = pp // 100 - 20
                p = 1 if p > 0 else p
                side, ok, lst = [], [], []
                for (i1, i2), tt, ll in (((q[0], q[1]), u.time_1_array[rows], u.lst_1_array[rows]),
                                         ((q[2], q[3]), u.time_2_array[rows], u.lst_2_array[rows])):
                    T, F = [], []
                    for ant in (i1, i2):
                        rr = [np.where((a.ant_1_array == ant) & (a.ant_2_array == ant) & (np.abs(a.time_array - t) < 1e-6))[0][0] for t in tt]
                        pi = a.polarization_array.tolist().index(p)
                        T.append(a.data_array[rr][:, ch, pi].real)
                        F.append(a.flag_array[rr][:, ch, pi])
                    F = F[0] | F[1]
                    T = np.sqrt(T[0] * T[1])
                    n = (~F * w).sum(1)
                    side.append(np.where(n > 1e-12, (T * ~F * w).sum(1) / np.where(n > 1e-12, n, 1), np.nan))
                    ok.append(~F.all(1))
                    lst.append(ll)
                    first[len(side)] = F
                if s not in first.setdefault("sc", {}) or first.get("j") != (s, j):
                    sc = c16.scalar_want(L, *c16.omegas(u, j), f, "none", h, noise=True)
                allflag = np.all(first[1] | first[2])
                if not allflag and any((~o).all() or np.isnan(x[o]).any() for o, x in zip(ok, side)):
                    continue  # only channels the window does not see
                got = {k: u.stats_array[k][s][rows][:, :, j] for k in kinds}
                t_int, ns = u.integration_array[s][rows, j], u.nsample_array[s][rows, j]
                if allflag:
                    for k in kinds:
                        ctx.check("P_N" if k == "P_N" else "P_SN", np.all(np.isinf(got[k])), "all flagged")
                    ctx.event("fully flagged")
                    continue
                o1, o2 = pick(side[0], ok[0], lst[0]), pick(side[1], ok[1], lst[1])
                single = min(ok[0].sum(), ok[1].sum()) < 2
                level = np.full(len(rows), np.nan)
                for m in range(len(rows)):
                    opts = [pn(sc, np.sqrt(x * y), t_int[m], ns[m]) for x in o1[m] for y in o2[m]]
                    if single and not (ok[0][m] and ok[1][m]):  # some unflagged time of each
                        opts = [pn(sc, np.sqrt(x * y), t_int[m], ns[m]) for x in (side[0][ok[0]].min(), side[0][ok[0]].max())
                                for y in (side[1][ok[1]].min(), side[1][ok[1]].max())]
                    if single and len(rows) > 1:  # one temperature for all of them
                        lo = pn(sc, np.sqrt(side[0][ok[0]].min() * side[1][ok[1]].min()), t_int[m], ns[m])
                        hi = pn(sc, np.sqrt(side[0][ok[0]].max() * side[1][ok[1]].max()), t_int[m], ns[m])
                    else:
                        lo, hi = min(opts), max(opts)
                    if not (ok[0][m] and ok[1][m]):
                        ctx.event("flagged time")
                    if "P_N" in kinds:
                        g = got["P_N"][m].real
                        ctx.check("P_N", np.ptp(g) <= 1e-10 * g.max(), "the same at all delays")
                        if hi / lo - 1 < 1e-12 or single:
                            ctx.check("P_N", lo * 0.98 <= g[0] <= hi * 1.02, lambda: f"P_N {g[0]} want {lo}..{hi} (time {m}, T {o1[m]} {o2[m]})")
                        else:
                            ctx.check("P_N", any(abs(g[0] / v - 1) < 0.02 for v in opts), lambda: f"P_N {g[0]} want one of {opts}")
                        level[m] = g[0]
                    elif hi / lo - 1 < 1e-12:
                        level[m] = lo
                if "P_SN" in kinds:
                    fine = np.isfinite(level)
                    ps = np.clip(before.data_array[s][rows][:, :, j].real, 0, None)[fine]
                    L_ = level[fine][:, None]
                    v = np.sqrt(np.sqrt(2) * ps * L_ + L_**2)
                    if corr:
                        v = v * (1 - (np.sqrt(1 / np.sqrt(np.pi) + 1) - 1) * L_ / v)
                    ctx.close_rel("P_SN", got["P_SN"][fine].real, v, rtol=1e-9 if "P_N" in kinds else 0.02, what=f"P_SN correction={corr}")
    # from a stored level, without autos
    if "P_N" in kinds:
        x = copy.deepcopy(u)
        x.stats_array = {"stored": x.stats_array["P_N"]}
        utils.uvp_noise_error(x, err_type="P_SN", precomp_P_N="stored", P_SN_correction=False, little_h=h)
        for s in range(u.Nspws):
            L_ = u.stats_array["P_N"][s].real
            ps = np.clip(before.data_array[s].real, 0, None)
            with np.errstate(invalid="ignore"):
                v = np.sqrt(np.sqrt(2) * ps * L_ + L_**2)
            v[np.isnan(v)] = np.inf
            ctx.close_rel("P_SN", x.stats_array["P_SN"][s].real, v, rtol=1e-9, what="from the stored noise")


def correction(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng, stats=False)
    u.stats_array = {"a": {}, "b": {}, "c": {}}
    c0 = np.sqrt(1 / np.sqrt(np.pi) + 1) - 1
    for s in range(u.Nspws):
        sh = u.data_array[s].shape
        n = rng.uniform(0.5, 2, sh)
        r = rng.choice([1.0, 1.5, 10.0, 0.1, np.inf, 0.0], size=sh, p=[.2, .3, .3, .1, .05, .05])
        u.stats_array["a"][s] = n
        u.stats_array["b"][s] = n * r
        u.stats_array["c"][s] = n + 1
    keep = copy.deepcopy(u)
    with np.errstate(all="ignore"):
        utils.apply_P_SN_correction(u, P_SN="b", P_N="a")
    ctx.sig("corr", u.Nspws, u.Nblpairs)
    for s in range(u.Nspws):
        a, b = keep.stats_array["a"][s], keep.stats_array["b"][s]
        g = u.stats_array["b"][s]
        good = np.isfinite(b) & (b > 0.5 * a)
        ctx.close_rel("correction", g[good], (b - c0 * a)[good], rtol=1e-10, what="noise subtracted once")
        bad = np.isfinite(b) & (b < 0.2 * a) & (b > 0)
        ctx.check("correction", np.all(np.isinf(g[bad])), "meaningless ones weigh nothing")
        ctx.check("correction", not np.any(np.isfinite(g[np.isinf(b)])), "infinite stays")
        ctx.check("correction", not np.any(g[np.isfinite(g)] < 0), "never negative")
        for k in ("a", "c"):
            ctx.check("correction", np.array_equal(u.stats_array[k][s], keep.stats_array[k][s]), "others kept")


def tsys(ctx):
    rng = ctx.rng
    stokes = bool(rng.random() < 0.3)
    pols = ["pI"] if stokes else [["xx"], ["yy"], ["xx", "yy"], ["yy", "xx"], ["yy", "xy", "xx"]][int(rng.integers(5))]
    if stokes and rng.random() < 0.5:
        pols = ["pQ", "pI"] if rng.random() < 0.5 else ["pI", "pV"]
    ants = vis.line_array(rng, int(rng.integers(2, 5)))
    k = list(ants)
    bls = [(x, y) for i, x in enumerate(k) for y in k[i:]]
    bls = [bls[i] for i in rng.permutation(len(bls))]
    xo = [None, "east", "north"][int(rng.integers(3))]
    u = vis.make_uvd(rng, ants, bls, int(rng.integers(1, 4)), int(rng.integers(2, 8)), pols, f0=float(rng.uniform(110e6, 180e6)), units="Jy",
                     flags=0.2, xorient=xo)
    for a in k:
        r, _ = vis.rows(u, (a, a))
        u.data_array[r] = rng.uniform(1, 10, u.data_array[r].shape) + 0j
    snap = vis.snapshot(u)
    bf = np.linspace(90e6, 200e6, 111)
    use = ["pI"] if stokes else [p for p in pols if p in ("xx", "yy")]
    al = {p: (rng.uniform(0.05, 0.2), rng.uniform(-2, -1)) for p in use}
    op = {p: al[p][0] * (bf / 150e6)**al[p][1] for p in use}
    opp = {p: 0.5 * v for p, v in op.items()}
    which = int(rng.integers(2))
    if which == 0:
        beam = pspecbeam.PSpecBeamFromArray({p: v.copy() for p, v in op.items()}, {p: v.copy() for p, v in opp.items()}, bf, x_orientation=xo)
    else:
        order = [use[i] for i in rng.permutation(len(use))]
        beam = gen.make_uvp(rng, pols=[(vis.POLNUM[p],) * 2 for p in order], beam=False)
        beam.beam_freqs = bf
        beam.OmegaP = np.stack([op[p] for p in order], 1)
        beam.OmegaPP = np.stack([opp[p] for p in order], 1)
    out = str(ctx.tmp) + "/tsys.uvh5" if rng.random() < 0.3 else None
    ctx.note(pols=pols, which=which)
    g = utils.uvd_to_Tsys(u, beam, Tsys_outfile=out)
    ctx.equal("tsys", vis.same(u, snap), None, "input kept")
    ctx.sig("tsys", tuple(pols), which, out is not None)
    ctx.equal("tsys", sorted(set(zip(g.ant_1_array.tolist(), g.ant_2_array.tolist()))), sorted((a, a) for a in k), "autos only")
    ctx.equal("tsys", sorted(g.polarization_array.tolist()), sorted(vis.POLNUM[p] for p in use), "polarizations")
    if out:
        from pyuvdata import UVData
        x = UVData.from_file(out)
        for a in k:
            for p in use:
                ctx.close_rel("tsys", vis.wf(x, (a, a), vis.POLNUM[p]), vis.wf(g, (a, a), vis.POLNUM[p]), rtol=1e-6, what="file")
    f = u.freq_array
    for a in k:
        for p in use:
            o = al[p][0] * (f / 150e6)**al[p][1]
            fac = 1e-26 * (cosmo.C * 1e3)**2 / (2 * 1.380649e-23 * f**2 * o)  # kelvin per jansky
            ctx.close_rel("tsys", vis.wf(g, (a, a), vis.POLNUM[p]), vis.wf(u, (a, a), vis.POLNUM[p]) * fac, rtol=2e-3, what=f"{p} of {pols}")
            ctx.equal("tsys", vis.wf(g, (a, a), vis.POLNUM[p], "flag").tolist(), vis.wf(u, (a, a), vis.POLNUM[p], "flag").tolist(), "flags")
    ctx.raises("refused", lambda: utils.uvd_to_Tsys(u, 3.0), ValueError, "not a beam")


def calibration(ctx):
    """Noise of a known temperature, end to end."""
    rng = ctx.rng
    nf, nt = int(rng.choice([16, 20, 24])), 100
    df, tint = float(rng.choice([1e5, 2.44e5])), float(rng.uniform(5, 20))
    ants = vis.line_array(rng, 5)
    k = list(ants)
    pols = ["xx", "yy"] if rng.random() < 0.5 else ["xx"]
    bls = [(k[i], k[i + 1]) for i in range(4)]
    f0 = float(rng.uniform(120e6, 160e6))
    taper = str(rng.choice(["none", "bh", "hann"]))
    b0 = {p: rng.uniform(0.05, 0.2) for p in pols}
    bf = np.arange(90e6, 200e6, 1e6)
    mk = lambda: pspecbeam.PSpecBeamFromArray({p: b0[p] * (bf / 150e6)**-2 for p in pols}, {p: 0.5 * b0[p] * (bf / 150e6)**-2 for p in pols}, bf)
    T = {(a, p): rng.uniform(150, 500) for a in k for p in pols}
    ds = []
    for d in range(2):
        u = vis.make_uvd(rng, ants, bls, nt, nf, pols, f0, df, integ=tint, t0=2458000.2)
        for b in bls:
            for j, p in enumerate(pols):
                r, _ = vis.rows(u, b)
                sh = u.data_array[r][:, :, j].shape
                s = 1e3 * np.sqrt(T[b[0], p] * T[b[1], p] / (df * tint))
                u.data_array[r, :, j] = s / np.sqrt(2) * (rng.normal(size=sh) + 1j * rng.normal(size=sh))
        ds.append(u)
    auto = vis.make_uvd(rng, ants, [(a, a) for a in k], nt, nf, pols, f0, df, integ=tint, t0=2458000.2)
    for a in k:
        for j, p in enumerate(pols):
            r, _ = vis.rows(auto, (a, a))
            auto.data_array[r, :, j] = T[a, p]
    h = bool(rng.random() < 0.5)
    D = PSpecData(dsets=ds, wgts=[None, None], beam=mk())
    uvp = D.pspec(bls, bls, (0, 1), [(p, p) for p in pols], input_data_weight="identity", norm="I", taper=taper, little_h=h, verbose=False)
    utils.uvp_noise_error(uvp, auto, err_type="P_N", little_h=h)
    ctx.sig("mc", taper, nf, len(pols), h)
    for stage in ("single", "averaged"):
        for j in range(len(pols)):
            z = uvp.data_array[0][:, :, j] / uvp.stats_array["P_N"][0][:, :, j].real
            for part in (z.real, z.imag):
                ctx.close("calibration", np.sqrt(np.mean(part**2)), 1.0, atol=0.12 if stage == "single" else 0.16,
                          what=f"scatter over predicted noise ({stage}, taper {taper})")
        uvp.average_spectra(blpair_groups=[sorted(set(uvp.blpair_array.tolist()))], error_field=None, inplace=True)
        uvp.stats_array = {}
        # noise of the averaged spectra from their accumulated samples: mean square of the temperatures
        for pp, p in zip(uvp.polpair_array.tolist(), pols):
            Tm = np.sqrt(np.sqrt(np.mean([(T[b[0], p] * T[b[1], p])**2 for b in bls])))
            blp = int(uvp.blpair_array[0])
            P = uvp.generate_noise_spectra(0, pp, float(Tm), little_h=h)[blp]
            uvp.set_stats("P_N", (0, blp, pp), P)
        if stage == "averaged":
            break


def covariance(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng, stats=True, ndly_mode="same", binned=0, cov=bool(rng.random() < 0.3))
    for k in u.stats_array:
        for s in u.stats_array[k]:
            u.stats_array[k][s] = np.abs(u.stats_array[k][s])
    taper = str(rng.choice(["blackmanharris", "hann", "boxcar", "none", "tukey"]))
    if taper == "boxcar":
        taper = "none"
    name = str(rng.choice(["P_N", "noise_err"]))
    inplace = bool(rng.random() < 0.5)
    keep = copy.deepcopy(u)
    v = u.add_approximate_covariance(variance_stat=name, inplace=inplace, taper=taper)
    ctx.check("covariance", (v is u) == inplace, "in place")
    if not inplace:
        ctx.equal("keep", gen.same_state(gen.snapshot(keep), gen.snapshot(u)), None, "input kept")
    ctx.sig("cov", taper, name, inplace)
    for s in range(u.Nspws):
        n = len(c16.spws_of(u)[s][0])
        w = oqe.taper(taper, n) if taper != "none" else np.ones(n)
        m = np.arange(n)
        F = np.abs(np.exp(-2j * np.pi * np.subtract.outer(m, m)[:, :, None] * m / n) @ (w**2))**2 if w.sum() > 0 else np.zeros((n, n))
        F = F / F[0, 0]
        e = keep.stats_array[name][s]
        want = np.einsum("rip,ij,rjp->rijp", e, F, e)
        ctx.close("covariance", v.cov_array_real[s], want, rtol=1e-9, what="covariance")
        ctx.check("covariance", not np.any(v.cov_array_imag[s]), "no imaginary covariance")
    ctx.raises("refused", lambda: u.add_approximate_covariance(variance_stat="nothing"), ValueError, "unknown statistic")


CASES = [Case("formula", formula, 30, 500), Case("spectra", spectra, 60, 1200), Case("error", error, 60, 1000),
         Case("correction", correction, 40, 600), Case("tsys", tsys, 40, 500), Case("calibration", calibration, 8, 100),
         Case("covariance", covariance, 30, 500)]
