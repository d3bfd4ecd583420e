"""C21: beam integrals, normalization scalars and unit conversion factors."""
import copy
import os

import numpy as np
import uvtools.dspec as dspec
from hera_pspec import conversions, pspecbeam
from pyuvdata import AiryBeam, GaussianBeam, ShortDipoleBeam, UVBeam
from scipy.interpolate import interp1d

from hv import cosmo, vis
from hv.checks.c16 import lcdm
from hv.core import Case

ID = "C21"
RULE = ("Gaussian, tabulated and pixelized beams (power, electric field and pseudo-Stokes; objects and files) of random widths and frequencies, random cosmologies, bands, "
        "tapers and conventions, polarizations in every spelling and feed orientation; every number is compared with a direct sum over pixels or frequencies; "
        "distinct = distinct kind of beam, polarization, taper and options")
REQUIRE = {"integrals": 250, "scalar": 80, "jy": 80, "omegas": 150, "table": 100, "refused": 200, "response": 60, "inputs-kept": 60}
ASSUMPTIONS = ["pixelized beams are HEALPix and peak normalized"]
STR = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
KB, C_CGS = 1.380649e-16, 2.99792458e10
TAPERS = ["none", "bh", "hann", "hamming", "tukey", "bh7"]


def spell(rng, p, xo=None):
    o = [p, STR[p]] + ([STR[p].upper()] if p < 0 else [])
    if xo and p < 0:
        o.append({"east": {-5: "ee", -6: "nn", -7: "en", -8: "ne"}, "north": {-5: "nn", -6: "ee", -7: "ne", -8: "en"}}[xo][p])
    return o[rng.integers(len(o))]


def freqs(rng, n=None):
    n = int(rng.integers(5, 40)) if n is None else n
    return np.linspace(rng.uniform(90e6, 110e6), rng.uniform(160e6, 200e6), n)


def judge(ctx, beam, p, name, Op, Opp, bf, L, mon="integrals"):
    """Everything derived from the integrals Op and Opp of one polarization."""
    rng = ctx.rng
    ctx.close_rel(mon, beam.power_beam_int(name), Op, 1e-9, what="beam integral")
    ctx.close_rel(mon, beam.power_beam_sq_int(name), Opp, 1e-9, what="beam squared integral")
    f0 = float(rng.uniform(bf[0], bf[-1] - 25e6))
    f1 = f0 + float(rng.uniform(2e6, 20e6))
    n = int(rng.integers(5, 60))
    taper, h, noise, ex = str(rng.choice(TAPERS)), bool(rng.random() < 0.5), bool(rng.random() < 0.3), bool(rng.random() < 0.25)
    kw = {"num_steps": [1000, 2000, 9000][rng.choice(3, p=[.6, .35, .05])]} if rng.random() < 0.8 else {}
    if rng.random() < 0.2:
        taper, h, noise, ex = "none", True, False, False  # what is assumed
    else:
        kw.update(taper=taper, little_h=h, noise_scalar=noise, exact_norm=ex)
    got = beam.compute_pspec_scalar(f0, f1, n, pol=name, **kw)
    ratio = interp1d(bf / 1e6, Opp / Op**2, kind="quadratic", fill_value="extrapolate")
    B = f1 - f0
    m = 40 * n
    f = f0 + (np.arange(m) + 0.5) * B / m  # midpoints
    x2y = np.interp(f, g := np.linspace(f0, f1, 25), [L.X2Y(L.f2z(x), h=h) for x in g])
    if ex:
        want, tol = x2y.mean(), 1e-5
    elif noise:
        want, tol = 1 / np.sum(1 / B * ratio(f / 1e6) / x2y * B / m), 1e-5
    else:
        ch = f0 + np.arange(n) * B / n
        w = np.ones(n) if taper == "none" else dspec.gen_window(taper, n)
        # the taper of the nearest channel
        idx = np.clip(np.rint((f - f0) / (B / n)).astype(int), 0, n - 1)
        want = 1 / np.sum(w[idx]**2 / B**2 * ratio(f / 1e6) / x2y * B / m)
        tol = 1e-5
        if taper != "none":
            # a step function: the sum over num_steps samples is only near the integral
            ns = kw.get("num_steps", 10000)
            tol = max(1e-3, 1. * n / ns)
    ctx.note(pol=name, band=(f0, f1, n), options=kw)
    ctx.close_rel("scalar", got, want, tol, what="normalization scalar")
    ctx.sig("judge", type(beam).__name__, str(name), taper, h, noise, ex)
    fq = [np.sort(rng.uniform(bf[0], bf[-1], 4)), float(rng.uniform(bf[0], bf[-1])), np.array([bf[0], bf[-1]])][rng.integers(3)]
    oi = interp1d(bf / 1e6, Op, kind="quadratic", fill_value="extrapolate")(np.atleast_1d(fq) / 1e6)
    ctx.close_rel("jy", beam.Jy_to_mK(fq, pol=name), 1e3 * 1e-23 * C_CGS**2 / (2 * KB * np.atleast_1d(fq)**2 * oi), 1e-4, what="Jy to mK")
    for bad in ([1.5e8], np.array([150000000]), 150000000):
        ctx.raises("refused", lambda: beam.Jy_to_mK(bad, pol=name), TypeError, "frequencies that are not a float array")


def omegas(ctx, beam, table):
    """table: {polarization number: (Op, Opp)}"""
    rng = ctx.rng
    ps = [list(table)[i] for i in rng.integers(0, len(table), int(rng.integers(1, 4)))]
    arg = []
    for p in ps:
        n = (20 + p) * 100 + 20 + p
        arg.append([n, np.int32(n), (p, p), (STR[p], STR[p])][rng.integers(4)])
    single = len(arg) == 1 and not isinstance(arg[0], np.int32) and rng.random() < 0.5
    if len(arg) > 1 and rng.random() < 0.3:
        arg = np.array([(20 + p) * 100 + 20 + p for p in ps])
    ctx.note(polpairs=arg)
    a, b = beam.get_Omegas(arg[0] if single else arg)
    ctx.close_rel("omegas", a, np.array([table[p][0] for p in ps]).T, 1e-9, what="OmegaP")
    ctx.close_rel("omegas", b, np.array([table[p][1] for p in ps]).T, 1e-9, what="OmegaPP")
    ctx.raises("refused", lambda: beam.get_Omegas([(-5, -6)]), NotImplementedError, "two polarizations")
    ctx.raises("refused", lambda: beam.get_Omegas("xx"), TypeError, "not pairs")


def make_cosmo(rng):
    ckw, L = lcdm(rng)
    if not ckw and rng.random() < 0.5:
        return None, L
    return conversions.Cosmo_Conversions(**ckw), L


def gauss(ctx):
    rng = ctx.rng
    bf, w = freqs(rng), float(rng.uniform(0.05, 0.4))
    co, L = make_cosmo(rng)
    b = pspecbeam.PSpecBeamGauss(w, bf, cosmo=co)
    t = (np.arange(40000) + 0.5) * (3 * w / 40000)
    g = np.exp(-4 * np.log(2) * t**2 / w**2)  # half power at half the full width
    one = np.ones(len(bf))
    Op, Opp = (np.sum(2 * np.pi * t * g**k) * (t[1] - t[0]) * one for k in (1, 2))
    p = list(STR)[rng.integers(8)]
    ctx.close_rel("integrals", b.power_beam_int(STR[p]), Op, 1e-6, what="beam integral")
    ctx.close_rel("integrals", b.power_beam_sq_int(STR[p]), Opp, 1e-6, what="beam squared integral")
    Op, Opp = b.power_beam_int(), b.power_beam_sq_int()
    judge(ctx, b, p, STR[p], Op, Opp, bf, L)
    omegas(ctx, b, {p: (Op, Opp) for p in STR})


def table(ctx):
    rng = ctx.rng
    bf = freqs(rng)
    co, L = make_cosmo(rng)
    xo = [None, "east", "north"][rng.integers(3)]
    ps = rng.permutation(list(STR))[:int(rng.integers(1, 6))].tolist()
    T = {}
    for p in ps:
        a = rng.uniform(0.05, 0.5)
        T[p] = (a * (bf / 150e6) ** rng.uniform(-2, 0), a * rng.uniform(0.3, 0.7) * (bf / 150e6) ** rng.uniform(-2, 0))
    how = rng.choice(["dict", "array", "add"])
    if how == "array":
        ps = [1]
        T = {1: list(T.values())[0]}
        O, OO = T[1][0].copy(), T[1][1].copy()
    else:
        first = ps if how == "dict" else ps[:1]
        lst = bool(rng.random() < 0.2)
        O = {spell(rng, p, xo): (T[p][0].tolist() if lst else T[p][0].copy()) for p in first}
        OO = {spell(rng, p, xo): (T[p][1].tolist() if lst else T[p][1].copy()) for p in first[::-1]}
    keep = copy.deepcopy((O, OO, bf))
    b = pspecbeam.PSpecBeamFromArray(O, OO, bf if rng.random() < 0.7 else list(bf), cosmo=co, x_orientation=xo)
    ctx.note(how=how, keys=list(O) if how != "array" else None, xo=xo)
    if how == "add":
        if rng.random() < 0.5:  # replaces
            b.add_pol(spell(rng, ps[0], xo), 2 * T[ps[0]][0], 3 * T[ps[0]][1])
            T[ps[0]] = (2 * T[ps[0]][0], 3 * T[ps[0]][1])
        for p in ps[1:]:
            b.add_pol(spell(rng, p, xo), T[p][0], T[p][1])
    same = lambda x, y: (isinstance(x, dict) and list(x) == list(y) and all(np.array_equal(x[k], y[k]) for k in x)) or \
        (not isinstance(x, dict) and np.array_equal(x, y))
    ctx.check("inputs-kept", all(same(x, y) for x, y in zip((O, OO, bf), keep)), "arguments changed")
    if how != "array":  # nor may they be shared
        for v in list(O.values()) + list(OO.values()):
            if isinstance(v, np.ndarray):
                v[:] = -1
    else:
        O[:] = -1
        OO[:] = -1
    for p in ps:
        for _ in range(2):
            n = spell(rng, p, xo)
            ctx.close("table", b.power_beam_int(n), T[p][0], 1e-13, what=f"OmegaP of {n}")
            ctx.close("table", b.power_beam_sq_int(n), T[p][1], 1e-13, what=f"OmegaPP of {n}")
        ctx.check("table", STR[p].lower() in b.available_pols.lower().split(", "), f"{p} is listed: {b.available_pols}")
    ctx.equal("table", len(b.available_pols.split(", ")), len(ps), "polarizations listed")
    judge(ctx, b, ps[0], spell(rng, ps[0], xo), *T[ps[0]], bf, L)
    omegas(ctx, b, T)
    for p in STR:
        if p not in T:
            ctx.raises("refused", lambda: b.power_beam_int(STR[p]), KeyError, "absent polarization")
            ctx.raises("refused", lambda: b.power_beam_sq_int(p), KeyError, "absent polarization")
    M = pspecbeam.PSpecBeamFromArray
    x, y = T[ps[0]]
    for a in ((x, {1: y}), ({1: x}, y), (5, 6), ({1: x}, [y])):
        ctx.raises("refused", lambda: M(a[0], a[1], bf), TypeError, "mixed types")
    ctx.raises("refused", lambda: M({1: x}, {2: y}, bf), KeyError, "OmegaPP missing")
    ctx.raises("refused", lambda: M({-1: x}, {-1: y}, bf), KeyError, "circular polarization")
    ctx.raises("refused", lambda: M({1: x[:-1]}, {1: y[:-1]}, bf), ValueError, "length")
    ctx.raises("refused", lambda: b.add_pol("pI", x[:-1], y), ValueError, "length")
    ctx.raises("refused", lambda: b.add_pol("pI", "foo", y), TypeError, "text")


def make_uvbeam(rng, kind, bf, nside):
    k = rng.integers(3)
    ab = AiryBeam(diameter=float(rng.uniform(6, 14))) if k == 0 else GaussianBeam(sigma=float(rng.uniform(0.15, 0.4))) if k == 1 else ShortDipoleBeam()
    typ = "power" if kind == "power" and k != 2 else "efield"
    u = ab.to_uvbeam(freq_array=bf, beam_type=typ, pixel_coordinate_system="healpix", nside=nside)
    if kind == "power" and typ == "efield":
        u.efield_to_power()
    if kind == "pstokes":
        u.efield_to_pstokes()
    if kind == "efield" and k != 2:  # polarizations that differ
        u.data_array[:, 0] *= 1 - 0.3 * np.linspace(0, 1, u.data_array.shape[-1])
    if kind == "power":
        u.data_array[0, 1] *= 1 - 0.3 * np.linspace(0, 1, u.data_array.shape[-1])
        u.data_array[0, 0] *= 1 - 0.2 * ((bf - bf[0]) / (bf[-1] - bf[0]))[:, None] * np.linspace(0, 1, u.data_array.shape[-1])
    if kind != "efield":
        u.peak_normalize()
    return u


def pixels(ctx):
    rng = ctx.rng
    bf = freqs(rng, int(rng.integers(4, 9)))
    nside = int(rng.choice([4, 8]))
    kind = str(rng.choice(["power", "efield", "pstokes"]))
    u = make_uvbeam(rng, kind, bf, nside)
    co, L = make_cosmo(rng)
    ref = u.copy()
    if kind == "efield":
        ref.efield_to_power()
        ref.peak_normalize()
    file = bool(rng.random() < 0.3)
    keep = u.copy()
    arg = u
    if file:
        arg = os.path.join(ctx.tmp, "b.beamfits")
        u.write_beamfits(arg)
        try:
            UVBeam().read_beamfits(arg)
        except NotImplementedError:  # some shapes of beam cannot be stored
            file, arg = False, u
        if file and rng.random() < 0.5:
            from pathlib import Path
            arg = Path(arg)
    b = pspecbeam.PSpecBeamUV(arg, cosmo=co)
    ctx.note(kind=kind, nside=nside, file=file, pols=ref.polarization_array)
    tol = 1e-9 if not file else 1e-6
    npix = ref.data_array.shape[-1]
    T = {}
    for i, p in enumerate(ref.polarization_array.tolist()):
        d = np.real(ref.data_array[0, i])
        T[p] = (d.sum(-1) * 4 * np.pi / npix, (np.abs(ref.data_array[0, i])**2).sum(-1) * 4 * np.pi / npix)
        n = STR[p] if rng.random() < 0.7 else p
        ctx.close_rel("integrals", b.power_beam_int(n), T[p][0], tol, atol=1e-12, what="beam integral")
        ctx.close_rel("integrals", b.power_beam_sq_int(n), T[p][1], tol, atol=1e-12, what="beam squared integral")
    main = [p for p in T if p in (-5, -6, 1)]
    p = main[rng.integers(len(main))]
    judge(ctx, b, p, STR[p], b.power_beam_int(STR[p]), b.power_beam_sq_int(STR[p]), bf, L)
    omegas(ctx, b, {p: T[p] for p in main} if not file else {p: (b.power_beam_int(STR[p]), b.power_beam_sq_int(STR[p])) for p in main})
    # response at and between the frequencies of the beam
    xo = [None, "east", "north"][rng.integers(3)]
    i = ref.polarization_array.tolist().index(p)
    k = rng.integers(1, len(bf) - 1, 3)
    n = spell(rng, p, xo)
    res, om, ns = b.beam_normalized_response(pol=n, freq=bf[k], x_orientation=xo)
    ctx.close("response", res, np.real(ref.data_array[0, i][k]), 1e-9 if not file else 1e-6, what="response at the frequencies of the beam")
    ctx.close_rel("response", om, T[p][0][k], 1e-9 if not file else 1e-6, what="solid angle")
    ctx.equal("response", ns, nside, "nside")
    f = np.sort(rng.uniform(bf[0], bf[-1], 4))
    res, om, ns = b.beam_normalized_response(pol=n, freq=f, x_orientation=xo)
    want = interp1d(bf, np.real(ref.data_array[0, i]), axis=0)(f)
    ctx.close("response", res, want, 1e-6, what="response between the frequencies of the beam")
    ctx.close_rel("response", om, res.sum(-1) * 4 * np.pi / npix, 1e-9, what="solid angle between the frequencies")
    miss = [q for q in STR if q not in T]
    ctx.raises("refused", lambda: b.beam_normalized_response(pol=miss[0], freq=f), ValueError, "absent polarization")
    ctx.raises("refused", lambda: b.power_beam_int(STR[miss[0]]), Exception, "absent polarization")
    ctx.check("inputs-kept", u == keep and u.beam_type == keep.beam_type, "the beam given was changed")
    if kind == "power":
        c = u.copy()
        c.data_normalization = "physical"
        ctx.raises("refused", lambda: pspecbeam.PSpecBeamUV(c).beam_normalized_response(pol=STR[p], freq=f), ValueError, "not peak normalized")
    ctx.sig("pixels", kind, nside, file, p)


CASES = [Case("gauss", gauss, 32, 600), Case("table", table, 40, 600), Case("pixels", pixels, 32, 480)]
