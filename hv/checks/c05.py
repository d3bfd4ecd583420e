"""C05: absolute calibration, sign conventions and symmetries of estimated power spectra."""
import copy

import numpy as np
from hera_pspec import PSpecData

from hv import cosmo, oqe, scene, vis
from hv.core import Case

ID = "C05"
RULE = ("datasets with known answers (white noise as a complete set of unit vectors, single delay tones) under random tapers, weightings, "
        "flags, windows, beams and normalizations, and pairs of related datasets whose results must be related; "
        "distinct = distinct combination of relation and settings")
REQUIRE = {"white": 120, "tone": 50, "scalar": 60, "linear": 25, "swap": 20, "shift": 12, "flagged-invisible": 15,
           "parts": 50, "reverse": 20}
ASSUMPTIONS = ["absolute normalization compared to 1%, relations to 1e-6"]
L = cosmo.LCDM(**cosmo.DEF)


def physical(sc, s, pp, weights):
    """Delta nu times the band average of Omega_p^2/Omega_pp X^2 Y, with the given channel weights (inverse average)."""
    a, b = sc.spws[s]
    nu = sc.f0 + sc.df * (np.arange(a, b) + 0.5)
    O = np.interp(nu, sc.beam.beam_freqs, sc.beam.power_beam_int(pp[0]))
    OO = np.interp(nu, sc.beam.beam_freqs, sc.beam.power_beam_sq_int(pp[0]))
    X = np.array([L.X2Y(L.f2z(n)) for n in nu])
    w = weights / weights.sum()
    return sc.df / np.sum(w * OO / O**2 / X)


def white(ctx):
    """The estimator's answer to white noise, exactly: sum over a complete set of unit vectors."""
    rng = ctx.rng
    n = int(rng.integers(8, 16))
    norm = ["I", "H^-1"][int(rng.random() < 0.4)]
    exact = norm == "I" and rng.random() < 0.25
    weighting = "dayenu" if norm == "H^-1" and rng.random() < 0.4 else "identity"
    sc = scene.Scene(rng, nfreqs=n, ntimes=n, flags=0.0, wgts=False, with_beam=True, norm=norm, weighting=weighting,
                     nsamples=False, shuffle=False, exact_norm=exact, max_spw=2, nbl=2, npol=2)
    sc.nd = [b - a for a, b in sc.spws]
    if norm == "H^-1" and sc.taper not in ("none", "hamming"):
        sc.taper = "hamming"
    if rng.random() < 0.6:  # a window of realistic width
        a = int(rng.integers(0, 3))
        sc.spws, sc.nd, sc.ext = [(a, n - int(rng.integers(0, 2)))], [0], [(0, 0)]
        sc.nd = [sc.spws[0][1] - a]
    if norm == "I" and not exact and rng.random() < 0.6:  # fewer delays than channels
        sc.nd = [int(rng.integers((b - a + 1) // 2, b - a + 1)) for a, b in sc.spws]
    amp = {}
    for d, u in enumerate(sc.dsets):
        for bl in sc.bls:
            r, rev = vis.rows(u, bl)
            for p in range(u.Npols):
                amp[d, bl, p] = complex(rng.normal(), rng.normal()) * 10 ** rng.uniform(-3, 3)
                u.data_array[r, :, p] = amp[d, bl, p] * np.eye(n)
    chan = np.zeros(n, bool)
    if norm == "I" and rng.random() < 0.5:
        chan[rng.integers(0, n, 2)] = True
        for u in sc.dsets:
            u.flag_array[:, chan] = True
    ctx.note(scene=sc.describe(), flagged=np.where(chan)[0].tolist())
    try:
        uvp = sc.run()
    except scene.Refused:
        return ctx.event("refused")
    for s, (a, b) in enumerate(sc.spws):
        T = oqe.taper(sc.taper, b - a)
        for i in range(len(sc.b1)):
            for pp in sc.polpairs:
                if (~chan[a:b]).sum() < 2 or (T[~chan[a:b]] ** 2).sum() < 1e-3:
                    continue
                k = []
                for d, bl, p in zip(sc.pair, (sc.b1[i], sc.b2[i]), pp):
                    st = bl if bl in sc.bls else bl[::-1]
                    num = vis.POLNUM[p]
                    if bl != st and num in (-7, -8):
                        num = -15 - num
                    z = amp[d, st, sc.dsets[d].polarization_array.tolist().index(num)]
                    k.append(z if bl == st else np.conj(z))
                got = uvp.get_data((s, (sc.b1[i], sc.b2[i]), pp)).sum(0)
                w = np.ones(b - a) if norm == "H^-1" else T**2
                if exact:
                    # the response uses the simulated pixelized beam
                    nu = sc.f0 + sc.df * np.arange(a, b)
                    r, om, ns = sc.beam.beam_normalized_response(pp[0], nu)
                    x = r / om[:, None]
                    B = np.pi / (3 * ns**2) * x @ x.T
                    X = np.mean([L.X2Y(L.f2z(v)) for v in np.linspace(nu[0], nu[0] + sc.df * (b - a), 200)])
                    want = sc.df * X / B.mean()
                    tol = 0.05 + 3 * (np.max(B) / np.min(B) - 1)
                else:
                    want, tol = physical(sc, s, pp, w), 0.01
                    # too few delays let a channel correlate with the one nd channels away
                    t = (np.sqrt(w) if sc.norm == "I" else np.ones(b - a)) * ~chan[a:b]
                    m = sc.nd[s]
                    tol += 2 * (t[m:] * t[:-m]).sum() / (t**2).sum() if m < b - a else 0
                    if tol > 0.03:
                        ctx.event("aliased")
                        continue
                ctx.close("white", got / (np.conj(k[0]) * k[1]) / want, np.ones(sc.nd[s]), atol=tol,
                          what=f"white noise {s} {pp} {sc.taper} {norm}")
    ctx.sig("white", norm, weighting, sc.taper, bool(chan.any()), exact, len(sc.spws), sc.symmetric)
    ctx.sample(scene=sc.describe())


def tone(ctx):
    """A wave e^{+2 pi i tau nu} appears at delay +tau with its power; opposite baselines give -tau."""
    rng = ctx.rng
    sc = scene.Scene(rng, flags=0.0, wgts=False, with_beam=True, max_spw=1, taper="none", nsamples=False, nfreqs=int(rng.integers(6, 20)))
    a, b = sc.spws[0]
    n = b - a
    sc.nd = [n]
    k = int(rng.integers(-(n // 2), n - n // 2))
    tau = k / (n * sc.df)
    A = float(10 ** rng.uniform(-3, 3))
    nu = sc.f0 + sc.df * np.arange(sc.nfreqs)
    ph = {}
    for u in sc.dsets:
        u.data_array[:] = A * np.exp(2j * np.pi * nu * tau)[None, :, None]
    # all baselines in the stored orientation, or all reversed
    flip = bool(rng.random() < 0.4)
    st = lambda bl: bl if bl in sc.bls else bl[::-1]
    sc.b1 = [st(x)[::-1] if flip else st(x) for x in sc.b1]
    sc.b2 = [st(x)[::-1] if flip else st(x) for x in sc.b2]
    pairs = sorted(set(zip(sc.b1, sc.b2)))
    sc.b1, sc.b2 = [p[0] for p in pairs], [p[1] for p in pairs]
    ctx.note(scene=sc.describe(), tau=tau, k=k, flip=flip)
    uvp = sc.run()
    want_tau = -tau if flip else tau
    for i in range(len(sc.b1)):
        for pp in sc.polpairs:
            p = uvp.get_data((0, (sc.b1[i], sc.b2[i]), pp))
            want = np.zeros(n)
            d = uvp.get_dlys(0)
            want[np.argmin(np.abs(np.angle(np.exp(2j * np.pi * (d - want_tau) * sc.df))))] = 1
            X = physical(sc, 0, pp, np.ones(n)) / sc.df  # per unit bandwidth
            ctx.close("tone", p / (A**2 * X * n * sc.df), np.broadcast_to(want, p.shape) + 0j, atol=0.01, what=f"tone at {tau}")
            if 2 * abs(k) != n:
                j = np.argmax(np.abs(p[0]))
                ctx.close("tone", d[j], want_tau, rtol=1e-6, atol=1e-15, what="delay of the tone")
    ctx.sig("tone", n, k, flip)


def scalar(ctx):
    """Normalization scalars by direct integration."""
    rng = ctx.rng
    sc = scene.Scene(rng, with_beam=True, flags=0.0, wgts=False, max_spw=2)
    ds = sc.make()
    for s, (a, b) in enumerate(sc.spws):
        ds.set_spw((a, b))
        ds.set_taper(sc.taper)
        n = b - a
        for p in sc.pols:
            for over in (None, "none", "hann" if n > 3 else "none"):
                if over is not None and rng.random() < 0.5:
                    continue
                t = sc.taper if over is None else over
                w = oqe.taper(t, n) ** 2
                if w.sum() < 1e-3:
                    continue
                # 1 / int dnu T^2/B^2 (Opp/Op^2) / X2Y
                want = physical(sc, s, (p, p), w) / sc.df * (n * sc.df) ** 2 / (w.sum() * sc.df)
                kw = {} if over is None else {"taper_override": over}
                pol = [p, (p, p), (vis.POLNUM[p],) * 2, (20 + vis.POLNUM[p]) * 101][int(rng.integers(4))]
                g = ds.scalar(pol, **kw)
                ctx.close("scalar", g / want, 1.0, atol=0.015, what=f"scalar {t}")
                which = int(rng.integers(4))
                if which == 0:
                    ctx.close("scalar", ds.scalar(pol, little_h=False, **kw) / g, L.h**-3, rtol=1e-5, what="without little h")
                elif which == 1:
                    ctx.close("scalar", ds.scalar(pol, beam=sc.beam, **kw), g, rtol=1e-12, what="beam given")
                    k2 = dict(kw, **[{"little_h": False}, {"exact_norm": True}, {"num_steps": 500}][int(rng.integers(3))])
                    ctx.close("scalar", ds.scalar(pol, beam=sc.beam, **k2), ds.scalar(pol, **k2), rtol=1e-12, what=f"beam given, {sorted(k2)}")
                ctx.equal("scalar", ds.taper, sc.taper, "taper kept")
            g = ds.scalar((p, p), exact_norm=True)
            nu = np.linspace(sc.f0 + a * sc.df, sc.f0 + b * sc.df, 50)
            ctx.close("scalar", g, np.mean([L.X2Y(L.f2z(v)) for v in nu]), rtol=2e-3, what="exact-normalization scalar")
        if len(sc.pols) > 1:
            ctx.raises("scalar", lambda: ds.scalar((sc.pols[0], sc.pols[1])), NotImplementedError, "mixed polarizations")
    # uvp keeps the scalars that convert it
    try:
        uvp = sc.run()
    except scene.Refused:
        return
    ds.set_taper("none" if sc.norm == "H^-1" else sc.taper)
    for s, spw in enumerate(sc.spws):
        ds.set_spw(spw)
        for pp in sc.polpairs:
            num = tuple(vis.POLNUM[p] for p in pp)
            j = uvp.polpair_array.tolist().index((20 + num[0]) * 100 + 20 + num[1])
            ctx.close("scalar", uvp.scalar_array[s, j], ds.scalar(pp), rtol=1e-10, what="stored scalar")
    ctx.sig("scalar", sc.taper, len(sc.spws), len(sc.pols))


def _same(ctx, mon, a, b, f=lambda x: x, what="", rtol=1e-6):
    for s in a.data_array:
        ctx.close(mon, a.data_array[s], f(b.data_array[s]), rtol=rtol, what=what)


def relations(ctx):
    rng = ctx.rng
    weighting = str(rng.choice(["identity", "identity", "dayenu"]))
    norm = str(rng.choice(["I", "I", "H^-1"]))
    sc = scene.Scene(rng, weighting=weighting, norm=norm, flags=0.0 if norm == "H^-1" else None,
                     taper=None if norm == "I" else "none", wgts=False)
    ctx.note(scene=sc.describe())
    try:
        base = sc.run()
    except scene.Refused:
        return ctx.event("refused")
    if not all(np.isfinite(base.data_array[s]).all() for s in base.data_array) or any(
            sc.want(s, i, pp).degenerate for s in range(len(sc.spws)) for i in range(len(sc.b1)) for pp in sc.polpairs):
        return ctx.event("degenerate")
    kind = ["linear", "swap", "flagged", "parts", "reverse", "order", "times"][ctx.index % 7]
    ctx.sig(kind, weighting, norm, sc.taper, len(sc.spws), sc.beam is not None)
    if kind == "linear":
        # one complex factor per dataset
        z = [complex(*rng.normal(size=2)) * 10 ** rng.uniform(-4, 4) for _ in sc.dsets]
        if not all(b in sc.bls for b in sc.b1 + sc.b2):
            z = [abs(x) for x in z]
        for u, x in zip(sc.dsets, z):
            u.data_array *= x
        f = np.conj(z[sc.pair[0]]) * z[sc.pair[1]]
        _same(ctx, "linear", sc.run(), base, lambda x: f * x, "scaled datasets")
    elif kind == "swap":
        o = copy.copy(sc)
        o.pair, o.b1, o.b2, o.polpairs = sc.pair[::-1], sc.b2, sc.b1, [p[::-1] for p in sc.polpairs]
        u = o.run()
        for s in range(len(sc.spws)):
            for i in range(len(sc.b1)):
                for pp in sc.polpairs:
                    ctx.close("swap", u.get_data((s, (sc.b2[i], sc.b1[i]), pp[::-1])),
                              np.conj(base.get_data((s, (sc.b1[i], sc.b2[i]), pp))), rtol=1e-6, what="swapped")
    elif kind == "flagged":
        # what is under always-flagged channels cannot matter
        done = 0
        for u in sc.dsets:
            for bl in sc.bls:
                r, _ = vis.rows(u, bl)
                for p in range(u.Npols):
                    ch = u.flag_array[r, :, p].all(0)
                    done += ch.sum()
                    u.data_array[np.ix_(r, ch, [p])] = 1e6 * rng.normal(size=(r.size, int(ch.sum()), 1))
        ctx.event("channels-overwritten", int(done))
        _same(ctx, "flagged-invisible", sc.run(), base, what="values under flags", rtol=1e-6)
    elif kind == "parts":
        # one window, polarization pair and baseline-pair at a time
        for s in range(len(sc.spws)):
            o = copy.copy(sc)
            o.spws, o.nd, o.ext = sc.spws[s:s + 1], sc.nd[s:s + 1], sc.ext[s:s + 1]
            j, i = int(rng.integers(len(sc.polpairs))), int(rng.integers(len(sc.b1)))
            o.polpairs, o.b1, o.b2 = sc.polpairs[j:j + 1], sc.b1[i:i + 1], sc.b2[i:i + 1]
            u = o.run()
            k = ((sc.b1[i], sc.b2[i]), sc.polpairs[j])
            ctx.close("parts", u.get_data((0,) + k), base.get_data((s,) + k), rtol=1e-8, what=f"alone {s} {k}")
            ctx.close("parts", u.get_integrations((0,) + k), base.get_integrations((s,) + k), what="integrations")
    elif kind == "reverse":
        if any(sum(e) for e in sc.ext) or {p for pp in sc.polpairs for p in pp} & {"xy", "yx"} or weighting != "identity":
            return ctx.event("skipped")
        o = copy.copy(sc)
        o.b1, o.b2 = [b[::-1] for b in sc.b1], [b[::-1] for b in sc.b2]
        u = o.run()
        for s in range(len(sc.spws)):
            n = sc.nd[s]
            for i in range(len(sc.b1)):
                for pp in sc.polpairs:
                    x = u.get_data((s, (o.b1[i], o.b2[i]), pp))
                    y = np.conj(base.get_data((s, (sc.b1[i], sc.b2[i]), pp)))
                    k = np.arange(n) - n // 2
                    pos = {int(v): m for m, v in enumerate(k)}
                    both = [m for m in range(n) if -int(k[m]) in pos]
                    ctx.close("reverse", x[:, both], y[:, [pos[-int(k[m])] for m in both]], rtol=1e-6, what="both baselines reversed: delays mirror")
    elif kind == "order":
        o = copy.copy(sc)
        p, q = rng.permutation(len(sc.b1)), rng.permutation(len(sc.polpairs))
        w = rng.permutation(len(sc.spws))
        o.b1, o.b2 = [sc.b1[i] for i in p], [sc.b2[i] for i in p]
        o.polpairs = [sc.polpairs[i] for i in q]
        o.spws, o.nd, o.ext = [sc.spws[i] for i in w], [sc.nd[i] for i in w], [sc.ext[i] for i in w]
        u = o.run()
        for s in range(len(sc.spws)):
            for i in range(len(sc.b1)):
                for pp in sc.polpairs:
                    k = ((sc.b1[i], sc.b2[i]), pp)
                    ctx.close("parts", u.get_data((w.tolist().index(s),) + k), base.get_data((s,) + k), rtol=1e-8, what=f"reordered request {k}")
    else:
        # the same data at other times, sample counts and units of time
        for u in sc.dsets:
            u.nsample_array[:] = rng.integers(1, 9, u.nsample_array.shape)
            u.integration_time[:] = rng.uniform(1, 20)
        _same(ctx, "parts", sc.run(), base, what="sample counts do not change bandpowers", rtol=1e-12)


def shift(ctx):
    """Multiplying both visibilities by e^{2 pi i m n/N} moves the spectrum by m delays."""
    rng = ctx.rng
    sc = scene.Scene(rng, max_spw=1, wgts=False, nfreqs=int(rng.integers(6, 14)))
    a, b = sc.spws[0]
    n = b - a
    sc.nd = [n]
    st = lambda bl: bl if bl in sc.bls else bl[::-1]
    sc.b1, sc.b2 = [st(x) for x in sc.b1], [st(x) for x in sc.b2]
    pairs = sorted(set(zip(sc.b1, sc.b2)))
    sc.b1, sc.b2 = [p[0] for p in pairs], [p[1] for p in pairs]
    ctx.note(scene=sc.describe())
    try:
        base = sc.run()
    except scene.Refused:
        return
    if any(sc.want(0, i, pp).degenerate for i in range(len(sc.b1)) for pp in sc.polpairs):
        return
    m = int(rng.integers(1, n))
    for u in sc.dsets:
        u.data_array *= np.exp(2j * np.pi * m * np.arange(sc.nfreqs) / n)[None, :, None]
    ctx.close("shift", sc.run().data_array[0], np.roll(base.data_array[0], m, axis=1), rtol=1e-6, what=f"shift by {m} of {n}")
    ctx.sig("shift", n, m, sc.taper)


CASES = [Case("white", white, 70, 800), Case("tone", tone, 40, 400), Case("scalar", scalar, 12, 200),
         Case("relations", relations, 140, 1600), Case("shift", shift, 40, 400)]
