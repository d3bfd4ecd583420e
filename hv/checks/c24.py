"""C24: bias corrections, and simulated noise, skies and example spectra with the stated statistics."""
import copy

import numpy as np
from hera_pspec import conversions, loss, pspecbeam, pspecdata, testing

from hv import gen, vis
from hv.core import Case
from hv.checks import c21

ID = "C24"
RULE = ("random spectra objects with random correction factors per window; random datasets (several polarizations, ragged sample "
        "counts, integration times and channel widths, flags) given to the simulators, whose output is standardised by the expected "
        "level of every sample and tested for variance, circularity and independence at 8 sigma; distinct = distinct "
        "combination of options and shapes")
REQUIRE = {"bias": 200, "kept": 100, "noise-level": 100, "noise-shape": 100, "noise-draws": 60, "extend": 40, "sky-noise": 60,
           "sky-signal": 60, "sky-kept": 30, "covariance": 60, "example": 40, "vanilla": 100}
ASSUMPTIONS = ["noise of pseudo-Stokes data converted to Jansky with a beam is not judged"]


CM, KB = 299792458.0, 1.380649e-23


# ------------------------------------------------------------------ bias corrections
def bias(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng)
    if rng.random() < 0.3:
        u.fold_spectra()
    if rng.random() < 0.3:
        u.average_spectra(time_avg=True)
    tot = {int(s): float(rng.uniform(0.3, 3)) for s in range(u.Nspws)} if rng.random() < 0.75 else None
    dat = {int(s): float(rng.uniform(0.3, 3)) for s in range(u.Nspws)} if rng.random() < 0.6 else None
    inpl = bool(rng.random() < 0.5)
    ctx.sig("bias", u.Nspws, tot is None, dat is None, inpl, hasattr(u, "cov_array_real"), len(getattr(u, "stats_array", {})), u.folded)
    ctx.note(uvp=gen.describe(u), total=tot, data=dat, inplace=inpl)
    want = copy.deepcopy(u)
    for s in range(u.Nspws):
        t = 1.0 if tot is None else tot[s]
        d = 1.0 if dat is None else dat[s]
        want.data_array[s] = u.data_array[s] * (t * d)
        if hasattr(u, "cov_array_real"):
            want.cov_array_real[s] = u.cov_array_real[s] * t**2
            want.cov_array_imag[s] = u.cov_array_imag[s] * t**2
        for st in getattr(u, "stats_array", {}):
            want.stats_array[st][s] = u.stats_array[st][s] * t
    snap = gen.snapshot(u)
    arg = (copy.deepcopy(tot), copy.deepcopy(dat))
    mode = int(rng.integers(3))
    if mode == 0:
        got = loss.apply_bias_correction(u, tot, dat, inplace=inpl)
    elif mode == 1:
        got = loss.apply_bias_correction(u, total_bias=tot, data_bias=dat, inplace=inpl)
    else:  # the two corrections one after the other
        got = loss.apply_bias_correction(u, data_bias=dat, inplace=inpl)
        got = loss.apply_bias_correction(got, total_bias=tot, inplace=inpl)
    a, b = gen.snapshot(got), gen.snapshot(want)
    for k in set(a) | set(b):
        ctx.equal("bias", gen.same_state(a.get(k), b.get(k), k, rtol=1e-12), None, "corrected object")
    ctx.equal("kept", (tot, dat), arg, "the factors given")
    if inpl:
        ctx.check("kept", got is u, "in place returns the object itself")
    else:
        ctx.check("kept", got is not u)
        ctx.equal("kept", gen.same_state(gen.snapshot(u), snap), None, "object corrected as a copy")


# ------------------------------------------------------------------ visibilities
def data(ctx, autos=True, pols=None, big=False):
    rng = ctx.rng
    ants = vis.line_array(rng, int(rng.integers(3, 6)))
    nums = sorted(ants)
    bls = [(i, j) for n, i in enumerate(nums) for j in nums[n + 1:]]
    bls = [bls[k] for k in sorted(rng.permutation(len(bls))[: int(rng.integers(2, len(bls) + 1))])]
    if autos:
        bls = sorted(bls + [(i, i) for i in nums])
    if pols is None:
        pols = [("xx",), ("xx", "yy"), ("yy", "xx"), ("pI", "pQ"), ("pI", "pQ", "pU", "pV")][int(rng.integers(5))]
    dt = float(rng.choice([2.0, 10.7, 21.4]))
    df = float(rng.choice([97656.25, 122070.3125, 2e5]))
    u = vis.make_uvd(rng, ants, bls, ntimes=int(rng.integers(6, 14)), nfreqs=int(rng.integers(12, 30)), pols=pols, df=df, dt=dt,
                     f0=float(rng.uniform(100e6, 180e6)), flags=0.1, nsamples=True, units="Jy", shuffle=False)
    return u, nums


def standard(ctx, mon, z, nbl=None, what=""):
    """z (blts, freqs, pols): standard complex normal numbers, independent of each other."""
    z = np.asarray(z)
    n = z.size
    ctx.check(mon, np.isfinite(z).all(), what + ": finite")
    tol = 8 / np.sqrt(2 * n)
    for nm, v in (("real", z.real), ("imag", z.imag)):
        s2 = np.mean(v**2) / 0.5
        ctx.check(mon, abs(s2 - 1) < 2 * tol, lambda: f"{what}: variance of the {nm} part is {s2:.4f} of the stated one ({n} samples)")
        m = np.mean(v)
        ctx.check(mon, abs(m) < 8 * np.sqrt(0.5 / n), lambda: f"{what}: mean of the {nm} part {m:.4f}")
    ctx.check(mon, abs(np.mean(z**2)) < 16 / np.sqrt(n), what + ": real and imaginary parts alike and unrelated")
    for ax in range(z.ndim):
        m = z.shape[ax]
        oth = tuple(i for i in range(z.ndim) if i != ax)
        q = np.mean(np.abs(z)**2, axis=oth)
        ctx.check(mon, np.all(np.abs(q - 1) < 8 / np.sqrt(n / m)), lambda: f"{what}: level along axis {ax} is {q}")
        for lag in range(1, min(m, 4)):  # independence
            c = np.mean(np.take(z, range(lag, m), ax) * np.conj(np.take(z, range(0, m - lag), ax)))
            k = n * (m - lag) / m
            ctx.check(mon, abs(c) < 8 / np.sqrt(k), lambda: f"{what}: samples {lag} apart along axis {ax} are related: {c}")


def noise(ctx):
    rng = ctx.rng
    u, nums = data(ctx)
    stokes = u.polarization_array[0] > 0
    u.integration_time = u.integration_time * rng.uniform(0.5, 2, u.Nblts)
    u.channel_width = u.channel_width * rng.uniform(0.7, 1.4, u.Nfreqs)
    if rng.random() < 0.6:
        u.nsample_array[rng.random(u.nsample_array.shape) < 0.03] = 0
    beam, ptype = None, "none"
    fr = np.asarray(u.freq_array)
    if not stokes and rng.random() < 0.6:
        ptype = "array"
        bf = np.linspace(fr[0] - 1e6, fr[-1] + 1e6, 21)
        op = {p: rng.uniform(0.05, 0.3) * (bf / 150e6)**rng.uniform(-3, 0) for p in ("XX", "YY")}
        beam = pspecbeam.PSpecBeamFromArray(OmegaP=op, OmegaPP={k: v / 2 for k, v in op.items()}, beam_freqs=bf)
    T = float(rng.uniform(50, 800))
    ext = int(rng.choice([0, 0, 1, 2, 3, 4]))
    seed = int(rng.integers(1, 10**6)) if rng.random() < 0.7 else None
    whiten, inpl = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    chk = bool(rng.random() < 0.7)
    ctx.sig("noise", u.Npols, bool(stokes), ptype, ext, whiten, inpl, seed is None)
    ctx.note(pols=u.polarization_array, Nblts=u.Nblts, beam=ptype, Nextend=ext, whiten=whiten, inplace=inpl, seed=seed)
    snap = vis.snapshot(u)
    work = u.copy()

    def go(w, sd=seed):
        r = testing.noise_sim(w, T, beam=beam, Nextend=ext, seed=sd, inplace=inpl, whiten=whiten, run_check=chk)
        if inpl:
            ctx.check("noise-shape", r is None, "in place returns nothing")
            return w
        ctx.equal("noise-shape", vis.same(w, snap), None, "the data given are kept")
        return r

    n = go(work)
    # axes, flags and sample counts
    ts = np.unique(u.time_array)
    want_t = ts[0] + np.arange(u.Ntimes * (ext + 1)) * np.median(np.diff(ts))
    mon = "extend" if ext else "noise-shape"
    ctx.close(mon, np.unique(n.time_array), want_t, atol=1e-6 * np.median(np.diff(ts)) * len(want_t) + 2e-9, rtol=0, what="times")
    for k in ("freq_array", "polarization_array", "channel_width"):
        ctx.close("noise-shape", getattr(n, k), getattr(u, k), what=k)
    ctx.equal("noise-shape", n.vis_units, u.vis_units)
    if not np.array_equal(np.shape(n.data_array), (u.Nblts * (ext + 1), u.Nfreqs, u.Npols)):
        ctx.check(mon, False, f"shape {n.data_array.shape}")
        return
    z, lev, bl_of = [], [], []
    for bl in sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))):
        r0 = np.where((u.ant_1_array == bl[0]) & (u.ant_2_array == bl[1]))[0]
        r1 = np.where((n.ant_1_array == bl[0]) & (n.ant_2_array == bl[1]))[0]
        r0, r1 = r0[np.argsort(u.time_array[r0])], r1[np.argsort(n.time_array[r1])]
        if not ctx.equal(mon, len(r1), len(r0) * (ext + 1), "times of a baseline"):
            return
        rep = np.tile(r0, ext + 1)
        ctx.close(mon, n.time_array[r1], want_t, rtol=0, atol=2e-8, what="times of a baseline")
        dl = (n.lst_array[r1] - u.lst_array[r0[0]] - (want_t - ts[0]) * 2 * np.pi * 1.00273790935) % (2 * np.pi)
        ctx.check(mon, np.all(np.minimum(dl, 2 * np.pi - dl) < 1e-6), lambda: f"LSTs: off by {dl}")
        ns = np.ones_like(u.nsample_array[rep]) if whiten else u.nsample_array[rep]
        fl = np.zeros_like(u.flag_array[rep]) if whiten else u.flag_array[rep]
        none = ns == 0
        ctx.equal("noise-shape", n.nsample_array[r1], ns, "sample counts")
        ctx.equal("noise-shape", n.flag_array[r1], fl | none, "flags; no samples, no data")
        ctx.check("noise-shape", np.isnan(n.data_array[r1][none]).all(), "no number where there are no samples")
        with np.errstate(divide="ignore"):
            rms = T / np.sqrt(u.integration_time[rep][:, None, None] * ns * u.channel_width[None, :, None])
        if stokes:
            rms = rms / np.sqrt(2)
        if beam is not None:
            for j, p in enumerate(u.polarization_array.tolist()):
                om = np.interp(fr, bf, op[{-5: "XX", -6: "YY"}[p]])
                k2j = 2 * KB * fr**2 / CM**2 * om * 1e26
                rms[:, :, j] *= k2j[None]
        d = n.data_array[r1] / rms
        d[none] = (rng.normal(size=none.sum()) + 1j * rng.normal(size=none.sum())) / np.sqrt(2)
        z.append(d)
    z = np.array(z)
    ctx.event("noise-samples", z.size)
    standard(ctx, "noise-level", z, what="noise")
    # draws: repeatable with a seed, otherwise new
    again = go(u.copy())
    same = np.array_equal(again.data_array, n.data_array, equal_nan=True)
    ctx.equal("noise-draws", bool(same), seed is not None, "same noise again")
    if seed is not None:
        other = go(u.copy(), seed + 1)
        ctx.check("noise-draws", not np.isclose(other.data_array, n.data_array).any(), "another seed gives other noise")


def autos_fn(ctx):
    rng = ctx.rng
    nf, nt = int(rng.integers(20, 50)), int(rng.integers(20, 60))
    fr = float(rng.uniform(100e6, 180e6)) + np.arange(nf) * float(rng.choice([97656.25, 2e5]))
    om = rng.uniform(0.05, 0.3) * (fr / 150e6)**-2
    call = bool(rng.random() < 0.5)
    cw = float(rng.uniform(5e4, 3e5)) if rng.random() < 0.5 else None
    Trx = float(rng.uniform(20, 300)) if rng.random() < 0.6 else 0.0
    scalar = bool(rng.random() < 0.4)
    a = float(rng.uniform(50, 500)) if scalar else rng.uniform(50, 500, (nt, nf))
    it = float(rng.uniform(2, 100))
    lsts = np.linspace(1, 2, nt)
    kw = {} if cw is None else dict(channel_width=cw)
    if Trx:
        kw["Trx"] = Trx
    z = []
    for _ in range(60 if scalar else 4):
        x = testing.sky_noise_jy_autos(lsts, fr, autovis=a, omega_p=(lambda f: rng_om(f, fr, om)) if call else om, integration_time=it, **kw)
        j2k = 1e-26 * (CM / fr)**2 / (2 * KB * om)
        rms = (a * np.ones((1, nf)) + Trx / j2k[None]) / np.sqrt(it * (cw or np.mean(np.diff(fr))))
        if scalar:
            ctx.check("sky-noise", np.shape(x)[-1] == nf, "one number per frequency")
        else:
            ctx.equal("sky-noise", np.shape(x), (nt, nf), "one number per time and frequency")
        z.append(x / rms)
    ctx.sig("autos", call, cw is None, Trx > 0, scalar)
    standard(ctx, "sky-noise", np.array(z), what="noise from the autocorrelations")


def rng_om(f, fr, om):
    return np.interp(f, fr, om)


# ------------------------------------------------------------------ foregrounds and skies
def signal_cov(ctx, mon, s, amp, L, fr, what):
    """rows of s: independent draws; real and imaginary part each with covariance amp*exp(-(df/L)^2)."""
    C = amp * np.exp(-((fr[:, None] - fr[None]) / L)**2)
    n = len(s)
    for nm, v in (("real", s.real), ("imag", s.imag)):
        E = v.T @ v / n
        d = np.sqrt(np.outer(np.diag(C), np.diag(C)) + C**2) / np.sqrt(n)
        ctx.check(mon, np.all(np.abs(E - C) < 8 * d), lambda: f"{what}: covariance of the {nm} part off by {np.max(np.abs(E - C) / d):.1f} sigma")
        m = np.mean(v, axis=0)
        ctx.check(mon, np.all(np.abs(m) < 8 * np.sqrt(np.diag(C) / n)), f"{what}: mean of the {nm} part")
    X = s.real.T @ s.imag / n
    ctx.check(mon, np.all(np.abs(X) < 8 * amp / np.sqrt(n)), f"{what}: real and imaginary parts unrelated")


def foreground(ctx):
    rng = ctx.rng
    nf = int(rng.integers(5, 25))
    fr = 150e6 + 1e5 * np.arange(nf)
    amp, L = float(10**rng.uniform(-1, 3)), float(10**rng.uniform(4.5, 6.5))
    const = bool(rng.random() < 0.5)
    ctx.sig("fg", const, nf, round(np.log10(L)))
    ctx.note(amp=amp, L=L, const=const, nf=nf)
    if const:
        nt = int(rng.integers(1, 9))
        rows = []
        for _ in range(300):
            s = testing.gauss_cov_fg(amp, L, fr, Ntimes=nt, constant_in_time=True)
            if len(rows) < 5:
                ctx.equal("covariance", s.shape, (nt, nf))
                ctx.check("covariance", np.array_equal(s, np.repeat(s[:1], nt, 0)), "one signal for all times")
            rows.append(s[0])
        s = np.array(rows)
    else:
        s = testing.gauss_cov_fg(amp, L, fr, Ntimes=3000, constant_in_time=False)
        if not ctx.equal("covariance", s.shape, (3000, nf)):
            return
        c = np.mean(s[1:, 0] * np.conj(s[:-1, 0])) / np.mean(np.abs(s[:, 0])**2)
        ctx.check("covariance", abs(c) < 8 / np.sqrt(3000), "times unrelated")
    signal_cov(ctx, "covariance", s, amp, L, fr, "foreground")


def sky(ctx):
    rng = ctx.rng
    pols = [("xx",), ("xx", "yy"), ("pI",), ("pI", "pQ"), ("pQ", "pI", "pV")][int(rng.integers(5))]
    u, nums = data(ctx, pols=pols)
    if rng.random() < 0.6:
        u.nsample_array[rng.random(u.nsample_array.shape) < 0.05] = 0
    stokes = pols[0][0] == "p"
    fr = np.asarray(u.freq_array)
    # autocorrelations: real, positive, different for every antenna, time and frequency
    isauto = u.ant_1_array == u.ant_2_array
    u.data_array[isauto] = rng.uniform(50, 500, u.data_array[isauto].shape)
    beam = _beam(stokes, fr)
    nsdiv, what = bool(rng.random() < 0.5), str(rng.choice(["noise", "signal", "both"]))
    perbl, pertime = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    amp = 0.0 if what == "noise" else float(10**rng.uniform(2, 6))
    L = float(rng.uniform(0.3, 5))
    if what == "signal":
        u.integration_time[:] = np.inf
    seed = int(rng.integers(1, 10**6))
    ctx.sig("sky", u.Npols, stokes, what, nsdiv, perbl, pertime)
    ctx.note(pols=pols, what=what, nsdiv=nsdiv, constant_per_bl=perbl, constant_in_time=pertime, amp=amp, L=L)
    kw = dict(cov_amp=amp, cov_length_scale=L, constant_per_bl=perbl, constant_in_time=pertime, bl_loop_seed=seed, divide_by_nsamp=nsdiv)
    snap = vis.snapshot(u)
    s = testing.sky_noise_sim(u, beam, **kw)
    ctx.equal("sky-kept", vis.same(u, snap), None, "the data given are kept")
    ctx.check("sky-kept", np.array_equal(s.data_array[isauto], u.data_array[isauto]), "autocorrelations kept")
    for k in ("flag_array", "nsample_array", "time_array", "ant_1_array", "ant_2_array", "freq_array", "polarization_array"):
        ctx.check("sky-kept", np.array_equal(getattr(s, k), getattr(u, k)), k)
    bls = [b for b in sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))) if b[0] != b[1]]
    df = np.mean(np.diff(fr))
    rows = lambda b: np.where((u.ant_1_array == b[0]) & (u.ant_2_array == b[1]))[0]
    pl = u.polarization_array.tolist()
    it = np.median(u.integration_time)
    rms, dat = [], []
    for b in bls:
        r = rows(b)
        a = []
        for p in pl:
            j = pl.index(1) if p in (2, 3, 4) else pl.index(p)
            a.append(np.sqrt(u.data_array[rows((b[0], b[0]))][:, :, j].real * u.data_array[rows((b[1], b[1]))][:, :, j].real))
        n = np.moveaxis(np.array(a), 0, -1) / np.sqrt(it * df)
        if nsdiv:
            ns = u.nsample_array[r]
            n = np.where(ns == 0, 0, n / np.sqrt(np.where(ns == 0, 1, ns)))
        rms.append(n)
        dat.append(s.data_array[r])
    rms, dat = np.array(rms), np.array(dat)  # (bl, time, freq, pol)
    if what == "noise":
        z = np.where(rms == 0, (rng.normal(size=rms.shape) + 1j * rng.normal(size=rms.shape)) / np.sqrt(2), dat / np.where(rms == 0, 1, rms))
        ctx.check("sky-noise", np.all(dat[rms == 0] == 0), "no noise where there are no samples")
        standard(ctx, "sky-noise", z, what="noise of the simulated sky")
    elif what == "signal":
        if perbl:
            ctx.check("sky-signal", np.allclose(dat, dat[:1, :, :, :1], rtol=1e-9), "same signal for all baselines")
        else:
            c = [np.abs(np.vdot(dat[i, ..., j], dat[i2, ..., j])) / np.sqrt(np.vdot(dat[i, ..., j], dat[i, ..., j]).real * np.vdot(dat[i2, ..., j], dat[i2, ..., j]).real)
                 for i in range(len(bls)) for i2 in range(i) for j in range(len(pl))]
            ctx.check("sky-signal", len(c) == 0 or max(c) < 1 - 1e-9, "a signal for every baseline")
        if pertime:
            ctx.check("sky-signal", np.allclose(dat, dat[:, :1], rtol=1e-9), "same signal at all times")
        else:
            ctx.check("sky-signal", not np.isclose(dat[:, 1:], dat[:, :-1], rtol=1e-9).any(), "a signal for every time")
        # smooth on the scale asked for: amplitude follows, and neighbours are related as stated
        kw2 = dict(kw, cov_amp=4 * amp)
        rr = []
        one = u.select(bls=[bls[0], (bls[0][0],) * 2, (bls[0][1],) * 2], polarizations=[pl[0]] if pl[0] < 0 or pl[0] == 1 else [1], inplace=False)
        b = (one.ant_1_array == bls[0][0]) & (one.ant_2_array == bls[0][1])
        for _ in range(40):
            x = testing.sky_noise_sim(one, beam, **dict(kw2, bl_loop_seed=None)).data_array[b][:, :, 0]
            rr += [x[0]] if pertime else list(x)
        signal_cov(ctx, "sky-signal", np.array(rr), 4 * amp, L * 1e6, fr, "sky")
    else:
        # noise and signal both there: their levels add
        tot = np.mean(np.abs(dat)**2)
        ctx.check("sky-signal", np.isfinite(dat).all() and tot > 0, "sky and noise")
    if perbl and what != "noise":
        return
    again = testing.sky_noise_sim(u, beam, **kw)
    ctx.check("sky-kept", np.array_equal(again.data_array, s.data_array), "same seed, same sky")
    other = testing.sky_noise_sim(u, beam, **dict(kw, bl_loop_seed=seed + 1))
    k = np.broadcast_to(rms > 0 if what == "noise" else True, dat.shape)
    o = np.array([other.data_array[rows(b)] for b in bls])
    ctx.check("sky-kept", not np.isclose(o, dat, rtol=1e-12)[k].any(), "another seed, another sky")


_B = {}


def _beam(stokes, fr):
    if stokes not in _B:
        r = np.random.default_rng(5)
        _B[stokes] = c21.make_uvbeam(r, "pstokes" if stokes else "power", np.linspace(95e6, 190e6, 6), 8)
    ub = _B[stokes]
    return pspecbeam.PSpecBeamUV(ub)


# ------------------------------------------------------------------ example spectra
def example(ctx):
    rng = ctx.rng
    ants = vis.grid_array(rng, int(rng.integers(3, 5)), 2)
    nums = sorted(ants)
    allb = [(i, j) for n, i in enumerate(nums) for j in nums[n + 1:]]
    order = rng.permutation(len(allb))
    grp, at = [], 0
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(2, 5))
        g = [allb[i] for i in order[at:at + k]]
        at += k
        if len(g) > 1:
            grp.append(g)
    u = vis.make_uvd(rng, ants, allb, ntimes=int(rng.integers(1, 4)), nfreqs=int(rng.integers(8, 16)), pols=[("xx",), ("yy", "xx"), ("pI",)][int(rng.integers(3))],
                     units="mK")
    one = len(grp) == 1 and rng.random() < 0.6
    std = None
    if rng.random() < 0.4:
        std = u.copy()
        std.data_array = np.abs(std.data_array) + 0.5 + 0j
    kw = {}
    if rng.random() < 0.5:
        kw["spw_ranges"] = [(0, u.Nfreqs // 2), (u.Nfreqs // 2, u.Nfreqs)] if rng.random() < 0.5 else [(1, u.Nfreqs - 1)]
    if rng.random() < 0.5:
        kw["taper"] = str(rng.choice(["blackman-harris", "tukey", "hann"]))
    if rng.random() < 0.3 and std is None:
        n = len(kw.get("spw_ranges", [0]))
        kw["n_dlys"] = [4] * n if n > 1 else 4
    beam = gen.make_beam(rng, pols=[{-5: "XX", -6: "YY", 1: "pI"}[int(u.polarization_array[0])]]) if rng.random() < 0.6 else None
    cos = None
    if beam is not None and rng.random() < 0.5:
        cos = conversions.Cosmo_Conversions(H0=float(rng.uniform(60, 75)))
    wt = str(rng.choice(["identity", "iC"])) if std is None else "identity"
    ctx.sig("example", len(grp), one, std is None, sorted(kw), beam is None, cos is None, wt)
    ctx.note(groups=grp, kw=kw, weighting=wt)
    snap = vis.snapshot(u)
    got = testing.uvpspec_from_data(u, grp[0] if one else grp, data_std=std, data_weighting=wt, beam=beam, cosmo=cos, **kw)
    ctx.equal("example", vis.same(u, snap), None, "the data given are kept")
    want = set()
    for g in grp:
        gs = sorted(g)
        want |= {frozenset((a, b)) for n, a in enumerate(gs) for b in gs[n + 1:]}
    pairs = [((q // 10**9 - 100, q // 10**6 % 1000 - 100), (q // 1000 % 1000 - 100, q % 1000 - 100)) for q in dict.fromkeys(got.blpair_array.tolist())]
    ctx.check("example", len(pairs) == len(want) and {frozenset(p) for p in pairs} == want, lambda: f"baseline pairs {pairs} want {want}")
    b2 = beam
    if cos is not None:
        b2 = copy.deepcopy(beam)
        b2.cosmo = cos
    ds = pspecdata.PSpecData(dsets=[u.copy(), u.copy()], wgts=[None, None], dsets_std=None if std is None else [std, std], labels=["d1", "d2"], beam=b2)
    p = int(u.polarization_array[0])
    ref = ds.pspec([x for x, _ in pairs], [y for _, y in pairs], (0, 1), (p, p), input_data_weight=wt, spw_ranges=kw.get("spw_ranges"),
                   taper=kw.get("taper", "none"), n_dlys=kw.get("n_dlys"), store_cov=std is not None, cov_model="dsets" if std is not None else "empirical",
                   verbose=False)
    gen.compare_records(ctx, "example", gen.records(got), gen.records(ref), "example spectra", rtol=1e-9)
    ctx.equal("example", not hasattr(got, "cosmo") if beam is None else (got.cosmo.get_params() == b2.cosmo.get_params()), True, "cosmology")


def vanilla(ctx):
    rng = ctx.rng
    nd = [None, None, int(rng.integers(3, 51))][int(rng.integers(3))]
    eq = bool(rng.random() < 0.5)
    u, c = testing.build_vanilla_uvpspec(Ndlys=nd, equal_time_arrays=eq)
    ctx.sig("vanilla", nd, eq)
    ctx.equal("vanilla", gen.structure_errors(u), [], "consistent object")
    ctx.equal("vanilla", u.Ndlys, nd or u.Nfreqs, "delays")
    ctx.equal("vanilla", bool(np.array_equal(u.time_1_array, u.time_2_array)), eq, "equal times")
    ctx.equal("vanilla", u.cosmo.get_params(), c.get_params(), "cosmology")
    full = set(zip(u.blpair_array.tolist(), u.time_1_array.tolist()))
    ctx.equal("vanilla", len(full), u.Nblpairs * len(np.unique(u.time_1_array)), "every pair at every time")
    for k in u.get_all_keys():
        ctx.close("vanilla", u.get_data(k), np.full((len(np.unique(u.time_1_array)), nd or u.Nfreqs), u.antnums_to_blpair(k[1]) / 1e9 + 0j), what="spectra")
    v = u.bl_vecs
    nm = u.bl_array.tolist()
    ctx.close("vanilla", v[nm.index(101102)] + v[nm.index(102103)], v[nm.index(101103)], atol=1e-6, what="baseline vectors close")


CASES = [Case("bias", bias, 60, 800), Case("noise", noise, 60, 600), Case("autos_fn", autos_fn, 12, 100),
         Case("foreground", foreground, 12, 100), Case("sky", sky, 40, 400), Case("example", example, 40, 250), Case("vanilla", vanilla, 12, 60)]
