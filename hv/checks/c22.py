"""C22: exact window functions."""
import copy
import os

import astropy.units as au
import h5py
import numpy as np
import uvtools.dspec as dspec
from hera_pspec import PSpecData, conversions
from hera_pspec.uvwindow import FTBeam, UVWindow, check_spw_range

from hv import gen, vis
from hv.checks.c16 import lcdm
from hv.core import Case

ID = "C22"
RULE = ("random Fourier beams (Gaussian and arbitrary, one or two polarizations, objects and files), odd and even numbers of channels, tapers, cosmologies, both h "
        "conventions, baseline lengths and bins; every window function is compared with a direct evaluation of its definition; "
        "distinct = distinct kind of beam, number of channels, taper, convention, bins and request")
REQUIRE = {"cylindrical": 60, "normalized": 60, "symmetry": 60, "spherical": 60, "beam": 100, "spectra": 60, "file": 8, "refused": 120, "bins": 60, "inputs-kept": 60,
           "estimated": 4}
ASSUMPTIONS = ["Fourier beams are real, even, sampled on an odd grid and defined at the channels of the spectral windows",
               "no mode lies within rounding of a bin edge; baselines are longer than 8 m"]
C0 = 299792458.0
TAPERS = ["none", "bh", "hann", "tukey", "bh7"]
POLS = ["pI", "pQ", "pU", "pV", "xx", "yy", "xy", "yx"]
POLN = {"pI": 1, "pQ": 2, "pU": 3, "pV": 4, "xx": -5, "yy": -6, "xy": -7, "yx": -8}


def even(rng, nf, n):
    """Real, even and smooth Fourier beam without any other symmetry."""
    q = np.arange(n) - n // 2
    d = np.zeros((nf, n, n))
    for i in range(nf):
        sx, sy, r = rng.uniform(2, 6), rng.uniform(2, 6), rng.uniform(-0.6, 0.6)
        x, y = q[:, None] / sx, q[None] / sy
        d[i] = rng.uniform(0.5, 2) * np.exp(-(x**2 + y**2 - 2 * r * x * y) / 2) * np.cos(rng.uniform(0, 1) * x) + 0.02 * rng.normal()
        e = rng.normal(size=(n, n)) * 0.03
        d[i] += (e + e[::-1, ::-1]) / 2
    return d


def make_freqs(rng, nf=None):
    nf = int(rng.integers(3, 20)) if nf is None else nf
    df = float(rng.choice([97656.25, 4e5, 122070.3125]))
    return 1.1e8 + df * (int(rng.integers(0, 200)) + np.arange(nf))


def make_beam(rng, fr, pol, mapsize, n, kind=None):
    kind = str(rng.choice(["gauss", "even"])) if kind is None else kind
    p = pol if rng.random() < 0.5 else POLN[pol]
    if kind == "even":
        return FTBeam(even(rng, len(fr), n), p, fr if rng.random() < 0.5 else list(fr), mapsize)
    w = rng.uniform(5, 20) if rng.random() < 0.5 else rng.uniform(5, 20, len(fr))
    return FTBeam.gaussian(fr, w, p, mapsize=mapsize, npix=n)


def bilinear(a, c0, c1, d):
    """Values of the square table d, at coordinates a on both axes, on the grid c0 x c1; zero outside."""
    def locate(c):
        i = np.clip(np.searchsorted(a, c, side="right") - 1, 0, len(a) - 2)
        t = (c - a[i]) / (a[i + 1] - a[i])
        return i, t, (c >= a[0]) & (c <= a[-1])
    i, s, oi = locate(c0)
    j, t, oj = locate(c1)
    s, t = s[:, None], t[None]
    v = ((1 - s) * (1 - t) * d[np.ix_(i, j)] + s * (1 - t) * d[np.ix_(i + 1, j)] + (1 - s) * t * d[np.ix_(i, j + 1)] + s * t * d[np.ix_(i + 1, j + 1)])
    return np.where(oi[:, None] & oj[None], v, 0.0)


def edges(b):
    b = np.asarray(b, float)
    d = np.diff(b).mean()
    return np.append(b - d / 2, b[-1] + d / 2)


def direct(d1, d2, fr, mapsize, taper, L, h, bl, kperp, kpara):
    """The definition of the cylindrical window functions: (delay, kperp, kpara)."""
    nf, n = len(fr), d1.shape[-1]
    nu = fr.mean()
    q = (np.arange(n) - n // 2) / (2 * mapsize)
    u = lambda z: L.DM(z) * (L.h if h else 1)  # distance in the units asked
    step = 2 * np.pi / (2 * mapsize) / u(L.f2z(fr.max()))
    mid = 2 * np.pi * nu * bl / C0 / u(L.f2z(nu)) / np.sqrt(2)
    g = np.arange(mid - 0.02, mid + 0.02, step)
    w = np.ones(nf) if taper in (None, "none") else dspec.gen_window(taper, nf)
    F = []
    for d in (d1, d2):
        A = np.empty((len(g), len(g), nf))
        for i, f in enumerate(fr):
            k = 2 * np.pi / u(L.f2z(f)) * (f * bl / C0 / np.sqrt(2) - q)  # descending
            A[..., i] = w[i] * bilinear(k[::-1], g, g, d[i][::-1, ::-1])
        eta = (np.arange(nf) - nf // 2)
        F.append(A @ np.exp(-2j * np.pi * np.outer(np.arange(nf), eta) / nf))
    X = (F[0] * F[1].conj()).real
    kn = np.hypot(g[:, None], g[None])
    ep, ez = edges(kperp), edges(kpara)
    W1 = np.zeros((len(kperp), nf))
    near = 0
    for m in range(len(kperp)):
        s = (ep[m] <= kn) & (kn < ep[m + 1])
        if s.any():
            W1[m] = X[s].mean(axis=0)
    near = np.min(np.abs(kn[..., None] - ep)) / step
    dnu = np.median(np.diff(fr))
    dk = float(L.kpara(1 / (dnu * nf), nu, h))
    out = np.zeros((nf, len(kperp), len(kpara)))
    for it in range(nf):
        t = -abs(it - nf // 2)
        kz = np.abs(eta + t) * dk
        if it == 2 * (nf // 2) - nf // 4:  # the one delay that is not obtained by symmetry
            kz = np.abs(eta - t) * dk
        near = min(near, np.min(np.abs(kz[:, None] - ez)) / dk)
        for m in range(len(kpara)):
            s = (ez[m] <= kz) & (kz < ez[m + 1])
            if s.any():
                out[it, :, m] = W1[:, s].mean(axis=1)
    tot = out.sum(axis=(1, 2))
    out = np.divide(out, tot[:, None, None], out=out.copy(), where=tot[:, None, None] != 0)
    size = np.abs(out).sum(axis=(1, 2))
    return out, near, tot, size


class Win:
    def __init__(self, ctx, nf=None):
        rng = ctx.rng
        self.fr = make_freqs(rng, nf)
        self.mapsize = float(rng.uniform(0.4, 1.1))
        self.n = int(rng.choice([21, 41, 61, 81]))
        p1 = str(rng.choice(POLS))
        p2 = p1 if rng.random() < 0.5 else str(rng.choice(POLS))
        self.b1 = make_beam(rng, self.fr, p1, self.mapsize, self.n)
        self.shared = p1 == p2 and rng.random() < 0.6
        self.b2 = self.b1 if self.shared else make_beam(rng, self.fr, p2, self.mapsize, self.n)
        self.taper = None if rng.random() < 0.15 else str(rng.choice(TAPERS))
        self.h = bool(rng.random() < 0.5)
        ck, self.L = lcdm(rng)
        self.cosmo = conversions.Cosmo_Conversions(**ck)
        arg = self.b1 if self.shared and rng.random() < 0.6 else [(self.b1, self.b2), [self.b1, self.b2]][rng.integers(2)]
        kw = {} if self.taper is None else {"taper": self.taper}
        if self.taper is None:
            kw["taper"] = None
        if self.taper == "none" and rng.random() < 0.3:
            kw["taper"] = "none"
        self.before = [copy.deepcopy(b.ft_beam) for b in (self.b1, self.b2)]
        self.w = UVWindow(arg, cosmo=self.cosmo, little_h=self.h, **kw)
        ctx.note(channels=(self.fr[0], len(self.fr)), mapsize=self.mapsize, npix=self.n, pols=(p1, p2), taper=self.taper, h=self.h)

    def bins(self, rng, bls):
        """Explicit or default bins, with a finite chance of missing the peak."""
        L, nu = self.L, self.fr.mean()
        dk = float(L.kpara(1 / (np.median(np.diff(self.fr)) * len(self.fr)), nu, self.h))
        kp = [float(L.kperp(b, nu, self.h)) for b in bls]
        step = float(rng.uniform(1.5e-3, 5e-3))
        n = int(rng.integers(3, 9))
        kperp = max(step / 2, min(kp) - step * rng.uniform(0, 5)) + step * np.arange(n + int((max(kp) - min(kp)) / step))
        sz = dk * float(rng.choice([0.9, 1.1, 1.7, 2.3]))
        kpara = sz * (0.5 + rng.uniform(0, 0.2)) + sz * np.arange(int(rng.integers(2, len(self.fr) + 2)))
        return kperp, kpara

    def want(self, bl, kperp, kpara):
        return direct(self.before[0], self.before[1], self.fr, self.mapsize, self.taper, self.L, self.h, bl, kperp, kpara)


def compare(ctx, mon, got, want, near, tot, size, what):
    if near < 1e-7:
        ctx.event("edge-skipped")
        return False
    # a window function whose normalization is a near-cancellation is ill-conditioned
    ok = size < 30
    ctx.close(mon, np.asarray(got)[ok], want[ok], rtol=5e-6, what=what)
    if not ok.all():
        ctx.event("ill-conditioned-delays", int((~ok).sum()))
    return bool(ok.all())


def cylindrical(ctx):
    rng = ctx.rng
    s = Win(ctx)
    w, nf = s.w, len(s.fr)
    bl = float(rng.uniform(8, 90)) if rng.random() < 0.9 else float(rng.uniform(90, 250))
    kp, kz = s.bins(rng, [bl])
    deft = rng.random() < 0.3
    if deft:
        kp, kz = w.get_kperp_bins([bl]), w.get_kpara_bins(s.fr)
        got = w.get_cylindrical_wf(bl)
        kp, kz = kp.value, kz.value
        centre = float(s.L.kperp(bl, s.fr.mean(), s.h))
        ctx.check("bins", edges(kp)[0] <= centre < edges(kp)[-1], f"default bins {kp[0]:.4g}-{kp[-1]:.4g} without the baseline's k {centre:.4g}")
        top = float(s.L.kpara(0.5 / np.median(np.diff(s.fr)), s.fr.mean(), s.h)) * (1 if nf % 2 == 0 else (nf - 1) / nf)
        ctx.check("bins", edges(kz)[-1] > top, f"default bins up to {kz[-1]:.4g} without the largest delay {top:.4g}")
        ctx.close("bins", np.diff(kp), np.full(len(kp) - 1, kp[1] - kp[0]), 1e-9, what="default bins are linear")
        dk = float(s.L.kpara(1 / (nf * np.median(np.diff(s.fr))), s.fr.mean(), s.h))
        ctx.close("bins", np.diff(kz), np.full(len(kz) - 1, dk), 1e-5, what="default bins are one delay apart")
    else:
        u = w.kunits
        ctx.equal("bins", u, au.h / au.Mpc if s.h else au.Mpc**-1, "units of k")
        mode = [None, "unweighted", "weighted"][rng.integers(3)]
        r = w.get_cylindrical_wf(bl, kp * u, kz * u, return_bins=mode)
        if mode is not None:
            got = r[2]
            if mode == "unweighted":
                ctx.close("bins", r[0], kp, 1e-12, what="bins returned")
                ctx.close("bins", r[1], kz, 1e-12, what="bins returned")
            else:
                m = r[0] > 0
                ctx.check("bins", np.all((r[0][m] >= edges(kp)[:-1][m] - 1e-9) & (r[0][m] <= edges(kp)[1:][m] + 1e-9)), "weighted bins lie in their bins")
        else:
            got = r
    ctx.note(bl=bl, bins=(len(kp), len(kz)))
    want, near, tot, size = s.want(bl, kp, kz)
    good = compare(ctx, "cylindrical", got, want, near, tot, size, f"window functions of a {bl:.1f} m baseline")
    sums = got.sum(axis=(1, 2))
    if good:
        ctx.close("normalized", sums, np.where(tot == 0, 0.0, 1.0), 1e-8, what="sum of each window function")
        # opposite delays
        a = np.arange(1, (nf - 1) // 2 + 1)
        q = nf // 2 - (2 * (nf // 2) - nf // 4)
        a = a[a != -q]
        ctx.close("symmetry", got[nf // 2 + a], got[nf // 2 - a], 1e-9, what="opposite delays")
        # a beam's amplitude and the order of the polarizations do not matter
        c = float(np.exp(rng.uniform(-6, 6)))
        o = [FTBeam(c * b, p, s.fr, s.mapsize) for b, p in zip(s.before[::-1], ("xx", "xx"))]
        g2 = UVWindow(o, taper=s.taper, cosmo=s.cosmo, little_h=s.h).get_cylindrical_wf(bl, kp * w.kunits, kz * w.kunits)
        ctx.close("symmetry", g2, got, 1e-7, what="scaled beams in the other order")
        if np.max(edges(kp)) > 0 and all(np.all(b >= 0) for b in s.before) and s.shared:
            ctx.check("normalized", np.all(got >= -1e-9), "window functions of one beam are not negative")
    ctx.close("inputs-kept", s.b1.ft_beam, s.before[0], 0, what="Fourier beam after use")
    ctx.close("inputs-kept", s.b2.ft_beam, s.before[1], 0, what="Fourier beam after use")
    ctx.sig("cyl", nf % 4, s.taper, s.h, s.shared, deft, len(kp), len(kz), s.n)
    # refusals
    v = w.kunits
    u = UVWindow(s.b1, little_h=not s.h).kunits
    ctx.raises("refused", lambda: w.get_cylindrical_wf(bl, kp * u, kz * v), ValueError, "bins of the other h convention")
    ctx.raises("refused", lambda: w.get_cylindrical_wf(bl, kp * v, kz * u), ValueError, "bins of the other h convention")
    ctx.raises("refused", lambda: w.get_cylindrical_wf(bl, kp, kz * v), AttributeError, "bins without units")
    ctx.raises("refused", lambda: w.get_cylindrical_wf(bl, kp**1.5 * v, kz * v), ValueError, "bins that are not linear")


def fold_spherical(W, kmag, kt, e, wt):
    """(bins, bins): weighted mean over the modes of a bin, then mean over the cells of a bin, normalized."""
    n = len(e) - 1
    out, kw = np.zeros((n, n)), np.zeros(n)
    for i in range(n):
        s = (e[i] <= kmag) & (kmag < e[i + 1])
        if not s.any():
            continue
        kw[i] = kmag[s].mean()
        ww = s * wt[:, None]
        if ww.sum() == 0:
            out[i] = np.nan
            continue
        m = np.tensordot(ww, W, axes=([0, 1], [0, 1])) / ww.sum()
        if m.sum() > 0:
            for j in range(n):
                c = (e[j] <= kt) & (kt < e[j + 1])
                if c.any():
                    out[i, j] = m[c].mean()
            t = out[i].sum()
            if t != 0:
                out[i] /= t
    return out, kw


def spherical(ctx):
    rng = ctx.rng
    s = Win(ctx, nf=int(rng.integers(3, 12)))
    w, L = s.w, s.L
    nu, nf = s.fr.mean(), len(s.fr)
    nb = int(rng.integers(1, 4))
    bls = rng.uniform(10, 80, nb)
    wt = np.ones(nb) if rng.random() < 0.4 else rng.integers(1, 9, nb).astype(float) * float(rng.choice([1, 0.5]))
    kp, kz = s.bins(rng, bls)
    dly = (np.arange(nf) - nf // 2) / (nf * np.median(np.diff(s.fr)))
    kmag = np.hypot(np.array([L.kperp(b, nu, s.h) for b in bls])[:, None], L.kpara(dly, nu, s.h))
    kt = np.hypot(kp[:, None], kz[None])
    hi = max(kmag.max(), kt.max()) * rng.uniform(0.4, 1.1)
    nk = int(rng.integers(2, 8))
    kb = hi * (np.arange(nk) + rng.uniform(0.3, 0.7)) / nk
    e = edges(kb)
    u = w.kunits
    near = min(np.abs(kmag[..., None] - e).min(), np.abs(kt[..., None] - e).min()) / (kb[1] - kb[0])
    if near < 1e-7:
        return ctx.event("edge-skipped")
    # random table: binning alone
    W = rng.uniform(0, 1, (nb, nf, len(kp), len(kz)))
    arg = W[0] if nb == 1 and rng.random() < 0.5 else W
    lens = float(bls[0]) if nb == 1 and rng.random() < 0.3 else [list(bls), bls, tuple(bls)][rng.integers(3)]
    ones = np.all(wt == 1) and rng.random() < 0.6
    got, gk = w.cylindrical_to_spherical(arg, kb * u, kt, lens, **({} if ones else {"bl_weights": [list(wt), wt][rng.integers(2)]}))
    want, wk = fold_spherical(W, kmag, kt, e, wt)
    ctx.note(bls=bls, weights=wt, kbins=kb)
    ctx.close("spherical", got, want, 1e-9, what="spherical average of a table")
    ctx.close("spherical", gk, wk, 1e-9, what="mean |k| of each bin")
    # from the beams
    D = [s.want(b, kp, kz) for b in bls]
    rows = got.sum(axis=1)
    ctx.check("normalized", np.all(np.isclose(rows, 1) | np.isclose(rows, 0)), f"sums {rows}")
    if min(d[1] for d in D) > 1e-7 and max(d[3].max() for d in D) < 30:
        W = np.array([d[0] for d in D])
        r = w.get_spherical_wf(kb * u, bls if rng.random() < 0.5 else list(bls), bl_weights=None if ones else list(wt), kperp_bins=kp * u, kpara_bins=kz * u,
                               return_weighted_k=True)
        want, wk = fold_spherical(W, kmag, kt, e, wt)
        ok = np.abs(want).max(axis=1) < 1e2
        ctx.close("spherical", np.asarray(r[0])[ok], want[ok], 1e-5, what="spherical window functions")
        ctx.close("spherical", r[1], wk, 1e-9, what="mean |k| of each bin")
        if rng.random() < 0.3:
            path = os.path.join(ctx.tmp, "w.h5")
            if rng.random() < 0.5:
                open(path, "w").write("old")
                ctx.raises("refused", lambda: w.run_and_write(path, bls, kperp_bins=kp * u, kpara_bins=kz * u), OSError, "an existing file")
                ctx.raises("refused", lambda: w.run_and_write(path, bls, bl_weights=[1] * (nb + 1), clobber=True), ValueError, "weights of another number")
                ctx.equal("file", open(path).read(), "old", "existing file after a refusal")
            w.run_and_write(path, bls, kperp_bins=kp * u, kpara_bins=kz * u, clobber=True)
            with h5py.File(path, "r") as f:
                ctx.close("file", f["cyl_wf"][...], W, 1e-5, what="window functions in the file")
                ctx.close("file", f["bl_lens"][...], bls, 0, what="lengths in the file")
                ctx.close("file", f["kperp_bins"][...], kp, 1e-12, what="bins in the file")
                ctx.close("file", f["kpara_bins"][...], kz, 1e-12, what="bins in the file")
                ctx.close("file", f["dly_array"][...], dly, 1e-9, what="delays in the file")
                ctx.equal("file", (int(f.attrs["nfreqs"]), bool(f.attrs["little_h"]), str(f.attrs["taper"])), (nf, s.h, s.taper or "none"), "settings in the file")
                ctx.equal("file", int(f.attrs["polpair"]), (20 + POLN[s.b1.pol]) * 100 + 20 + POLN[s.b2.pol], "polarizations in the file")
    if rng.random() < 0.25:
        # no bins given: the default ones, of all the baselines
        dp, dz = w.get_kperp_bins(list(bls)), w.get_kpara_bins(s.fr)
        ks = [float(L.kperp(b, nu, s.h)) for b in bls]
        ctx.check("bins", edges(dp.value)[0] <= min(ks) and max(ks) < edges(dp.value)[-1], f"default bins {dp[0]:.4g}-{dp[-1]:.4g} without the baselines' k {ks}")
        none = lambda: None if rng.random() < 0.6 else []
        g = w.get_spherical_wf(kb * u, bls, kperp_bins=none(), kpara_bins=none())
        e2 = w.get_spherical_wf(kb * u, bls, kperp_bins=dp, kpara_bins=dz)
        ctx.close("spherical", g, e2, 1e-12, what="spherical window functions in default bins")
        path = os.path.join(ctx.tmp, "d.h5")
        w.run_and_write(path, bls, kperp_bins=none(), kpara_bins=none())
        with h5py.File(path, "r") as f:
            ctx.close("file", f["kperp_bins"][...], dp.value, 1e-12, what="default bins in the file")
            ctx.close("file", f["kpara_bins"][...], dz.value, 1e-12, what="default bins in the file")
            for i, b in enumerate(bls):
                ctx.close("file", f["cyl_wf"][i], w.get_cylindrical_wf(b, dp, dz), 1e-12, what="window functions in the file, in default bins")
    ctx.sig("sph", nb, nk, nf % 2, bool(ones), s.h)
    ctx.raises("refused", lambda: w.cylindrical_to_spherical(W, kb, kt, bls), AttributeError, "bins without units")
    ctx.raises("refused", lambda: w.cylindrical_to_spherical(W, kb * u, kt, np.append(bls, 5.)), ValueError, "another number of baselines")
    ctx.raises("refused", lambda: w.cylindrical_to_spherical(W, kb * u, kt, bls, bl_weights=np.ones(nb + 1)), ValueError, "another number of weights")
    ctx.raises("refused", lambda: w.cylindrical_to_spherical(W, kb * u, kt[:-1], bls), ValueError, "another grid")
    ctx.raises("refused", lambda: w.get_spherical_wf(kb[:1] * u, bls, kperp_bins=kp * u, kpara_bins=kz * u), ValueError, "one bin")


def write_beam(path, root, pol, data, fr, mapsize):
    p = os.path.join(path, f"{root}_{pol}.hdf5")
    with h5py.File(p, "w") as f:
        f["mapsize"] = np.array([mapsize])
        f["freq"] = fr
        f["FT_beam"] = data
    return p


def beams(ctx):
    """Fourier beams hold what they are given, whatever the source."""
    rng = ctx.rng
    fr, m, n = make_freqs(rng), float(rng.uniform(0.4, 1.2)), int(rng.choice([11, 21, 31]))
    pol = str(rng.choice(POLS))
    d = even(rng, len(fr), n)
    ctx.note(pol=pol, nf=len(fr), npix=n)

    def judge(b, d, fr, what):
        ctx.close("beam", b.ft_beam, d, 1e-12, what=f"{what}: Fourier beam")
        ctx.close("beam", b.freq_array, fr, 0, what=f"{what}: frequencies")
        ctx.equal("beam", (b.pol, b.mapsize), (pol, m), f"{what}: polarization and map size")
    judge(FTBeam(d if rng.random() < 0.5 else d.tolist(), pol if rng.random() < 0.5 else POLN[pol], fr, m), d, fr, "object")
    root = str(rng.choice(["beam", "FT_beam_HERA", "a_b_c"]))
    p = write_beam(ctx.tmp, root, pol, d, fr, m)
    judge(FTBeam.from_file(p), d, fr, "file")
    ctx.close("beam", FTBeam.get_bandwidth(p), fr, 0, what="bandwidth of a file")
    a = int(rng.integers(0, len(fr) - 1))
    b = int(rng.integers(a + 1, len(fr) + 1))
    r = [(a, b), [a, b], np.array([a, b])][rng.integers(3)]
    judge(FTBeam.from_file(p, spw_range=r), d[a:b], fr[a:b], "part of a file")
    o = FTBeam(d, pol, fr, m)
    o.update_spw(r)
    judge(o, d[a:b], fr[a:b], "part of an object")
    ctx.equal("beam", tuple(o.spw_range), (a, b), "channels kept")
    # Gaussian: the transform of exp(-theta^2/w^2) on the grid of the map
    w = float(rng.uniform(3, 30)) if rng.random() < 0.5 else rng.uniform(3, 30, len(fr))
    g = FTBeam.gaussian(fr, w, pol, mapsize=m, npix=n)
    q = (np.arange(n) - n // 2) / (2 * m)
    wr = np.deg2rad(np.broadcast_to(w, len(fr)))[:, None, None]
    want = np.exp(-np.pi**2 * wr**2 * (q[:, None]**2 + q**2))
    judge(g, want * np.pi / (2 * m) * wr**2, fr, "Gaussian")
    lo, hi = sorted(rng.integers(0, 40, 2).tolist())
    for rr, ok in [((lo, hi), hi > lo), ((hi, lo), False) if hi > lo else ((3, 3), False), ((-1, 4), False), ((1, 2, 3), False), (4, False)]:
        ctx.equal("beam", bool(check_spw_range(rr)), ok, f"range {rr}")
    ctx.equal("beam", bool(check_spw_range((0, len(fr)), fr)), True, "whole range")
    ctx.equal("beam", bool(check_spw_range((0, len(fr) + 1), fr)), False, "range beyond the band")
    for bad, what in [(lambda: FTBeam(d[0], pol, fr, m), "two dimensions"), (lambda: FTBeam(d[:, 1:], pol, fr, m), "not square"),
                      (lambda: FTBeam(d, "zz", fr, m), "unknown polarization"), (lambda: FTBeam(d, 9, fr, m), "unknown polarization"),
                      (lambda: FTBeam(d, pol, fr[1:], m), "other number of channels"), (lambda: o.update_spw((0, 1000)), "channels beyond the beam"),
                      (lambda: FTBeam.from_file(p, spw_range=(0, 1000)), "channels beyond the file"), (lambda: FTBeam.from_file(p + "x"), "missing file"),
                      (lambda: FTBeam.gaussian(fr, np.ones(len(fr) + 1) * 9., pol), "another number of widths"), (lambda: FTBeam.gaussian(fr[:2], 9., pol), "two channels")]:
        ctx.raises("refused", bad, ValueError, what)
    ctx.raises("refused", lambda: FTBeam(d, 1.0, fr, m), TypeError, "polarization 1.0")
    o1, o2 = FTBeam(d, pol, fr, m), FTBeam(d[:-1], pol, fr[:-1], m)
    for bad in (o2, FTBeam(d, pol, fr + 1.0, m), FTBeam(d, pol, fr, m * 1.1)):
        ctx.raises("refused", lambda: UVWindow([o1, bad]), ValueError, "beams of different channels or maps")
    ctx.raises("refused", lambda: UVWindow(o1, taper="nonsense"), ValueError, "unknown taper")
    ctx.raises("refused", lambda: UVWindow("beam"), ValueError, "a string for a beam")
    ctx.sig("beams", pol, len(fr) % 4, n, type(r).__name__)


def spectra(ctx):
    """Window functions computed for, and stored with, power spectra."""
    rng = ctx.rng
    pol_sets = [[(POLN[a], POLN[b])] for a, b in (("xx", "yy"), ("yy", "xx"), ("xx", "xx"), ("pI", "pI"), ("pI", "pQ"), ("xy", "yx"))]
    pols = sum([pol_sets[i] for i in rng.permutation(len(pol_sets))[:int(rng.integers(1, 4))]], [])
    u = gen.make_uvp(rng, binned=0, nspw=int(rng.integers(1, 3)), nblp=int(rng.integers(1, 4)), ntimes=int(rng.integers(1, 3)), pols=pols,
                     ndly_mode="same", window=False, cov=False, stats=False, min_nf=4, max_nf=9)
    if min(u.get_red_blpairs()[1]) < 8.0:
        return ctx.event("short-baselines")
    u.taper = str(rng.choice(TAPERS))
    ck, L = lcdm(rng)
    cosmo = conversions.Cosmo_Conversions(**ck)
    u.cosmo = cosmo
    h = bool(rng.random() < 0.5)
    u.norm_units = "h^-3 Mpc^3" if h else "Mpc^3"
    df = np.diff(u.freq_array[u.spw_freq_array == 0])[0]
    lo = u.freq_array.min() - df * int(rng.integers(0, 4))
    fr = lo + df * np.arange(int(round((u.freq_array.max() - lo) / df)) + 1 + int(rng.integers(0, 4)))
    m, n = float(rng.uniform(0.4, 0.8)), int(rng.choice([21, 41]))
    names = sorted({k for p in pols for k in p})
    num = {v: k for k, v in POLN.items()}
    data = {k: even(rng, len(fr), n) for k in names}
    one = rng.random() < 0.4
    if one:
        base = even(rng, len(fr), n)
        data = {k: base for k in names}
        arg = FTBeam(base, "xx", fr, m)
    else:
        for k in names:
            write_beam(ctx.tmp, "ft_beam", num[k], data[k], fr, m)
        arg = os.path.join(ctx.tmp, "ft_beam")
    ctx.note(describe=gen.describe(u), taper=u.taper, h=h, one=one)
    snap = gen.snapshot(u)
    spw = None if rng.random() < 0.6 else [int(rng.integers(u.Nspws))]
    inplace = bool(rng.random() < 0.5) and spw is None
    r = u.get_exact_window_functions(ftbeam=arg, spw_array=spw, inplace=inplace)
    if inplace:
        kp, kz, W = u.window_function_kperp, u.window_function_kpara, u.window_function_array
        ctx.equal("spectra", bool(u.exact_windows), True, "exact_windows")
        u.check()
    else:
        kp, kz, W = r if r is not None else (u.window_function_kperp, u.window_function_kpara, u.window_function_array)
        if r is not None:
            diff = gen.same_state(gen.snapshot(u), snap)
            ctx.check("inputs-kept", diff is None, f"object after a request not in place: {diff}")
        else:
            ctx.check("spectra", False, "nothing returned although not in place")
    if one:
        ctx.close("inputs-kept", arg.ft_beam, data[names[0]], 0, what="Fourier beam")
        ctx.close("inputs-kept", arg.freq_array, fr, 0, what="channels of the Fourier beam")
    grp, lens, _ = u.get_red_blpairs()
    which = {int(b): l for g, l in zip(grp, lens) for b in g}
    ctx.equal("spectra", sorted(int(s) for s in W), sorted(range(u.Nspws) if spw is None else spw), "windows computed")
    for s in W:
        f = u.freq_array[u.spw_freq_array == s]
        i0 = int(np.argmin(np.abs(fr - f[0])))
        for ip, (p1, p2) in enumerate(pols):
            kpp, kzz = np.asarray(kp[s])[:, ip], np.asarray(kz[s])[:, ip]
            ctx.equal("spectra", W[s].shape, (u.Nbltpairs, len(f), len(kpp), len(kzz), len(pols)), "shape")
            for b, bl in which.items():
                want, near, tot, size = direct(data[p1][i0:i0 + len(f)], data[p2][i0:i0 + len(f)], f, m, u.taper, L, h, bl, kpp, kzz)
                for j in np.where(u.blpair_array == b)[0]:
                    compare(ctx, "spectra", W[s][j, ..., ip], want, near, tot, size, f"window functions of pair {b}, window {s}, polarizations {(p1, p2)}")
    ctx.sig("spectra", len(pols), u.Nspws, one, h, u.taper, inplace, spw is None)
    ctx.raises("refused", lambda: u.get_exact_window_functions(ftbeam=3), TypeError, "a number for a beam")


def estimated(ctx):
    """Window functions stored by pspec are those asked afterwards."""
    rng = ctx.rng
    ants = vis.line_array(rng, 3)
    bls = [(a, b) for a in sorted(ants) for b in sorted(ants) if a < b]
    d = [vis.make_uvd(rng, ants, bls, ntimes=2, nfreqs=8, pols=["xx", "yy"]) for _ in range(1)]
    d.append(copy.deepcopy(d[0]))
    ds = PSpecData(dsets=d)
    fr = d[0].freq_array
    n, m = 21, 0.5
    for p in ("xx", "yy"):
        write_beam(ctx.tmp, "b", p, even(rng, len(fr), n), fr, m)
    root = os.path.join(ctx.tmp, "b")
    kw = dict(spw_ranges=[(0, 5), (2, 8)][:int(rng.integers(1, 3))], taper=str(rng.choice(TAPERS)), little_h=bool(rng.random() < 0.5), verbose=False)
    pols = [("xx", "xx"), ("yy", "yy")][:int(rng.integers(1, 3))]
    u = ds.pspec(bls, bls, (0, 1), pols, store_window=True, exact_windows=True, ftbeam=root, **kw)
    v = ds.pspec(bls, bls, (0, 1), pols, **kw)
    a, b, c = v.get_exact_window_functions(ftbeam=root, inplace=False)
    ctx.equal("estimated", bool(u.exact_windows), True, "exact_windows")
    for s in c:
        ctx.close("estimated", u.window_function_array[s], c[s], 1e-9, what="window functions")
        ctx.close("estimated", u.window_function_kperp[s], a[s], 1e-12, what="bins")
        ctx.close("estimated", u.window_function_kpara[s], b[s], 1e-12, what="bins")
        ctx.close("estimated", u.data_array[s], v.data_array[s], 1e-12, what="spectra")
    ctx.sig("estimated", len(pols), len(c), kw["taper"])


CASES = [Case("cylindrical", cylindrical, 60, 900), Case("spherical", spherical, 40, 600), Case("beams", beams, 20, 150), Case("spectra", spectra, 24, 300),
         Case("estimated", estimated, 2, 12)]
