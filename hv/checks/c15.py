"""C15: cosmological conversions."""
import numpy as np
from hera_pspec import conversions, utils

from hv import cosmo
from hv.core import Case

ID = "C15"
RULE = ("random cosmologies (flat, open, closed, with and without explicit matter and curvature), redshifts from 0.01 to 60, both "
        "h conventions and frequency units; every conversion is compared with direct numerical integration and with the identities "
        "between them; distinct = distinct kind of cosmology, decade of redshift and convention")
REQUIRE = {"distance": 600, "inverse": 300, "volume": 300, "wavenumber": 300, "identity": 600, "delays": 150, "same": 100}
ASSUMPTIONS = ["constants of the code agree with CODATA to 1e-5"]


def params(rng):
    kind = ["default", "flat", "open", "closed", "matter", "curvature"][int(rng.integers(6))]
    kw = {}
    if kind != "default":
        kw["H0"] = float(rng.uniform(50, 90))
        kw["Om_L"] = float(rng.uniform(0.5, 0.8))
        m = 1 - kw["Om_L"]
        if kind == "open":
            m *= rng.uniform(0.5, 0.9)
        if kind == "closed":
            m *= rng.uniform(1.1, 1.5)
        kw["Om_b"], kw["Om_c"] = 0.15 * m, 0.85 * m
        if kind == "matter":
            kw["Om_M"] = float(m)
            if rng.random() < 0.5:
                kw.pop("Om_b")
                kw.pop("Om_c")
        if kind == "curvature":
            kw["Om_k"] = float(rng.choice([0.0, rng.uniform(-0.1, 0.1)]))
    return kind, kw


def conv(ctx):
    rng = ctx.rng
    for _ in range(6):
        kind, kw = params(rng)
        c = conversions.Cosmo_Conversions(**kw)
        L = cosmo.LCDM(**{**cosmo.DEF, **kw})
        z = float(10 ** rng.uniform(-2, 1.8))
        ctx.note(kw=kw, z=z)
        ctx.sig(kind, int(np.floor(np.log10(z))), np.sign(round(L.Om_k, 12)))
        h = L.h
        r = 2e-5
        ctx.close("distance", c.E(z), L.E(z), rtol=1e-10, what="E")
        for lh in (True, False):
            f = h if lh else 1.0
            ctx.close("distance", c.DC(z, little_h=lh), L.DC(z) * f, rtol=1e-7, what="radial distance")
            ctx.close("distance", c.DM(z, little_h=lh), L.DM(z) * f, rtol=1e-7, what="transverse distance")
            ctx.close("distance", c.DA(z, little_h=lh), L.DM(z) / (1 + z) * f, rtol=1e-7, what="angular distance")
            ctx.close("distance", c.dRperp_dtheta(z, little_h=lh), L.DM(z) * f, rtol=1e-7, what="Mpc per radian")
            y = cosmo.C * (1 + z)**2 / (L.H0 * L.E(z) * cosmo.F21) * f
            ctx.close("distance", c.dRpara_df(z, little_h=lh), y, rtol=r, what="Mpc per Hz")
            ctx.close("distance", c.dRpara_df(z, ghz=True, little_h=lh), y * 1e9, rtol=r, what="Mpc per GHz")
            # finite difference of the distance itself
            nu = cosmo.F21 / (1 + z)
            e = 1e-4 * nu
            ctx.close("identity", c.dRpara_df(z, little_h=lh), (c.DC(c.f2z(nu - e), little_h=lh) - c.DC(c.f2z(nu + e), little_h=lh)) / (2 * e),
                      rtol=1e-3, what="distance per bandwidth is the slope of the distance")
            ctx.close("volume", c.X2Y(z, little_h=lh), L.X2Y(z, h=False) * f**3, rtol=r, what="volume")
            ctx.close("identity", c.X2Y(z, little_h=lh), c.dRperp_dtheta(z, little_h=lh)**2 * c.dRpara_df(z, little_h=lh), rtol=1e-10, what="volume of a cell")
            b, tau = rng.uniform(1, 1e3), rng.uniform(-5e-6, 5e-6)
            ctx.close("wavenumber", c.bl_to_kperp(z, little_h=lh) * b, L.kperp(b, nu, h=False) / f, rtol=r, what="k perpendicular")
            ctx.close("wavenumber", c.tau_to_kpara(z, little_h=lh) * tau, L.kpara(tau, nu, h=False) / f, rtol=r, what="k parallel")
            # a mode with k_perp, k_para seen at u, tau: k.r = 2 pi (u theta + tau nu)
            ctx.close("identity", c.tau_to_kpara(z, little_h=lh) * c.dRpara_df(z, little_h=lh), 2 * np.pi, rtol=1e-10, what="k_para per delay")
            ctx.close("identity", c.bl_to_kperp(z, little_h=lh) * c.dRperp_dtheta(z, little_h=lh), 2 * np.pi * nu / (cosmo.C * 1e3), rtol=r, what="k_perp per baseline")
        # default convention is h^-1 Mpc
        for name in ("DC", "DM", "DA", "dRperp_dtheta", "dRpara_df", "X2Y", "bl_to_kperp", "tau_to_kpara"):
            ctx.close("identity", getattr(c, name)(z), getattr(c, name)(z, little_h=True), rtol=1e-14, what=f"{name}: default is h^-1 Mpc")
        ghz = bool(rng.random() < 0.5)
        s = 1e9 if ghz else 1.0
        fr = c.z2f(z, ghz=ghz)
        ctx.close("inverse", fr * s, cosmo.F21 / (1 + z), rtol=r, what="frequency")
        ctx.close("inverse", c.f2z(fr, ghz=ghz), z, rtol=1e-10, what="redshift of frequency")
        zs = np.sort(rng.uniform(0, 30, 5))
        ctx.close("inverse", c.f2z(c.z2f(zs)), zs, rtol=1e-10, what="redshifts of frequencies")
        fs = rng.uniform(50e6, 250e6, 5)
        keep = fs.copy()
        ctx.close("inverse", c.z2f(c.f2z(fs)), fs, rtol=1e-10, what="frequencies of redshifts")
        ctx.check("inverse", np.array_equal(keep, fs), "input unchanged")
        # the parameters describe the object
        p = c.get_params()
        ctx.close("same", [p["Om_L"], p["H0"], p["Om_M"], p["Om_k"]], [L.Om_L, L.H0, L.Om_M, L.Om_k], rtol=1e-10, what="parameters")
        ctx.close("same", p["Om_b"] + p["Om_c"], p["Om_M"], rtol=2e-5, what="baryons and dark matter make up the matter")
        d = conversions.Cosmo_Conversions(**p)
        ctx.close("same", d.DM(z), c.DM(z), rtol=1e-10, what="rebuilt from its parameters")
        if kind != "matter":
            ctx.check("same", c == d, "rebuilt object is equal")
        q = dict(p)
        k = str(rng.choice(["H0", "Om_L", "Om_M"]))
        q[k] *= 1.01
        ctx.check("same", not (c == conversions.Cosmo_Conversions(**q)), f"other {k}")


def delays(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 40))
    df = float(10 ** rng.uniform(4, 6.5))
    f = rng.uniform(5e7, 2e8) + df * np.arange(n)
    nd = None if rng.random() < 0.4 else int(rng.integers(1, 50))
    m = n if nd is None else nd
    keep = f.copy()
    g = utils.get_delays(f, n_dlys=nd)
    ctx.sig("delays", n, nd)
    want = np.array([(k - m // 2) / (m * df) for k in range(m)])
    ctx.close("delays", g, want, rtol=1e-9, what=f"delays {n} {nd}")
    ctx.check("delays", np.array_equal(f, keep))
    ctx.equal("delays", int(np.argmin(np.abs(g))), m // 2, "zero delay")


class Freqs:
    def __init__(self, f):
        self.freq_array = f


def windows(ctx):
    """Channel ranges of frequency and redshift ranges."""
    rng = ctx.rng
    n = int(rng.integers(3, 40))
    df = 1e5
    f = 1.2e8 + df * np.arange(n)
    data = Freqs(f)
    lst = []
    for _ in range(int(rng.integers(1, 4))):
        a, b = sorted(rng.uniform(f[0], f[-1], 2).tolist())
        if rng.random() < 0.5:
            a = float(rng.choice(f))
        if rng.random() < 0.5:
            b = float(rng.choice(f))
        a, b = min(a, b), max(a, b)
        lst.append((a, b))
    want = []
    for a, b in lst:
        i = [k for k in range(n) if a <= f[k] < b]
        want.append((i[0], i[-1]) if i else (None, None))
    one = len(lst) == 1 and rng.random() < 0.5
    ctx.note(f=f, ranges=lst)
    ctx.sig("win", n, len(lst), one)
    g = utils.spw_range_from_freqs(data, lst[0] if one else list(lst))
    ctx.check("delays", g == (want[0] if one else want), f"{g} want {want}")
    zr = [(float(cosmo.F21 / b - 1), float(cosmo.F21 / a - 1)) for a, b in lst]
    zr = [(conversions.units.f21 / b - 1, conversions.units.f21 / a - 1) for a, b in lst]
    try:
        back = [tuple(float(conversions.Cosmo_Conversions.z2f(z)) for z in r[::-1]) for r in zr]
        w2 = []
        for a, b in back:
            i = [k for k in range(n) if a <= f[k] < b]
            w2.append((i[0], i[-1]) if i else (None, None))
        g = utils.spw_range_from_redshifts(data, zr[0] if one else list(zr), bounds_error=False)
        ctx.check("delays", g == (w2[0] if one else w2), f"redshifts {g} want {w2}")
    except ZeroDivisionError:
        pass
    for bad in ((f[0] - df, f[-1]), (f[0], f[-1] + df), (f[2], f[1])):
        ctx.raises("delays", lambda: utils.spw_range_from_freqs(data, bad), ValueError, f"range {bad}")
    ctx.equal("delays", utils.spw_range_from_freqs(data, (f[-1] + 10 * df, f[-1] + 20 * df), bounds_error=False), (None, None))
    ctx.raises("delays", lambda: utils.spw_range_from_freqs(data, 1.3e8), TypeError, "not a range")
    ctx.raises("delays", lambda: utils.spw_range_from_freqs(3, (1, 2)), AttributeError, "no frequencies")


def angles(ctx):
    """Circular means, used for the LST of averaged spectra."""
    rng = ctx.rng
    sh = tuple(int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4))))
    ax = int(rng.integers(len(sh)))
    c = rng.uniform(0, 2 * np.pi, [s for i, s in enumerate(sh) if i != ax])
    a = np.expand_dims(c, ax) + rng.uniform(-0.7, 0.7, sh)
    keep = a.copy()
    g = utils.circular_average(a % (2 * np.pi), axis=ax)
    want = np.angle(np.mean(np.exp(1j * a), axis=ax)) % (2 * np.pi)
    ctx.sig("angles", sh, ax)
    ctx.close("identity", np.exp(1j * np.asarray(g)), np.exp(1j * want), rtol=1e-9, what="circular mean")
    ctx.check("identity", np.all((np.asarray(g) >= 0) & (np.asarray(g) <= 2 * np.pi + 1e-12)), "between 0 and 2 pi")
    ctx.check("identity", np.array_equal(a, keep))


CASES = [Case("conv", conv, 60, 1500), Case("delays", delays, 60, 1500), Case("windows", windows, 30, 600), Case("angles", angles, 40, 800)]
