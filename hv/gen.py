"""Synthetic inputs: UVPSpec objects, visibilities and beams; no data files."""
import copy

import numpy as np

from hera_pspec import conversions, pspecbeam, uvpspec
from hera_pspec import uvpspec_utils as uvputils

LAT, LON = -30.72152612068925, 21.42830382686301  # HERA
TEL_XYZ = np.array([5109325.85521063, 2005235.09142983, -3239928.42475397])
POLSTR = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
SIDEREAL = 2 * np.pi / 86164.0905  # rad per second of time


def enu_to_ecef_rot(enu):
    """Rotate ENU difference vectors at the HERA site into ECEF axes."""
    lat, lon = np.deg2rad(LAT), np.deg2rad(LON)
    e, n, u = np.asarray(enu, float).T
    x = -np.sin(lon) * e - np.sin(lat) * np.cos(lon) * n + np.cos(lat) * np.cos(lon) * u
    y = np.cos(lon) * e - np.sin(lat) * np.sin(lon) * n + np.cos(lat) * np.sin(lon) * u
    z = np.cos(lat) * n + np.sin(lat) * u
    return np.stack([x, y, z], -1)


def antpos(rng, n, kind="hex", sep=14.6):
    """{ant number: ENU position}.  hex is redundant; rand is not."""
    nums = np.sort(rng.choice(350, n, replace=False)) if rng.random() < 0.5 else np.arange(n)
    if kind == "hex":
        pts, R = [], 1
        while True:
            pts = [(sep * (i + 0.5 * j), sep * j * np.sqrt(3) / 2, 0.0)
                   for j in range(-R, R + 1) for i in range(-R, R + 1)
                   if abs(i + j) <= R]
            if len(pts) >= n:
                break
            R += 1
        sel = rng.choice(len(pts), n, replace=False) if rng.random() < 0.3 else np.arange(n)
        pts = [pts[i] for i in sorted(sel)]
    elif kind == "line":
        pts = [(sep * i, 0.0, 0.0) for i in range(n)]
    else:
        pts = [tuple(p) for p in rng.uniform(-120, 120, (n, 3)) * [1, 1, 0.02]]
    return {int(a): np.array(p) for a, p in zip(nums, pts)}


def delays(freqs, n):
    """Independent statement of the delay axis (seconds), ascending order."""
    df = np.median(np.diff(freqs))
    return np.fft.fftshift(np.fft.fftfreq(n, d=df))


POLPAIRS = [(-5, -5), (-6, -6), (-5, -6), (-6, -5), (1, 1), (2, 2), (3, 3), (4, 4), (1, 2)]


def pp_int(p1, p2):
    return (p1 + 20) * 100 + (p2 + 20)


def blp_int(bl1, bl2):
    f = lambda b: (b[0] + 100) * 1000 + (b[1] + 100)
    return f(bl1) * 10**6 + f(bl2)


def make_beam(rng, kind=None, cosmo=None, pols=("pI",)):
    freqs = np.arange(90e6, 200e6, 1e6)
    kind = kind or rng.choice(["gauss", "array"])
    if kind == "gauss":
        return pspecbeam.PSpecBeamGauss(rng.uniform(0.05, 0.3), freqs, cosmo=cosmo)
    op, opp = {}, {}
    for p in pols:
        a = rng.uniform(0.05, 0.15)
        op[p] = a * (freqs / 150e6) ** rng.uniform(-2.2, -1.0)
        opp[p] = 0.5 * a * (freqs / 150e6) ** rng.uniform(-2.2, -1.0)
    return pspecbeam.PSpecBeamFromArray(
        {k: v.copy() for k, v in op.items()}, {k: v.copy() for k, v in opp.items()},
        freqs, cosmo=cosmo)


def random_psd(rng, n, shape=()):
    a = rng.normal(size=shape + (n, n))
    m = a @ np.swapaxes(a, -1, -2) / n
    return m + 0.1 * np.eye(n)


def make_uvp(rng, nspw=None, nblp=None, ntimes=None, npol=None, cov=None,
             stats=None, window=None, ragged=None, diff_times=None, order=None,
             spw_sorted=True, ndly_mode=None, beam=None, exact=False, label=None,
             pols=None, flags=False, antenna=None, spws=None, t0=2458042.1,
             wrap_lst=False, min_nf=4, max_nf=14, equal_spw_nf=False, cosmo=True,
             redundant=True, distinct_pairs=True, bare=False, r_params="", odd_times=False, binned=None):
    """A random, valid UVPSpec built from its documented data model."""
    pick = lambda v, f: f() if v is None else v
    if nspw is None and spws is None and rng.random() < 0.04:  # two-digit window numbers
        nspw, min_nf, max_nf = int(rng.integers(10, 13)), min(min_nf, 5), min(max_nf, 6)
    nspw = pick(nspw, lambda: int(rng.integers(1, 4)))
    nblp = pick(nblp, lambda: int(rng.integers(1, 6)))
    ntimes = pick(ntimes, lambda: int(rng.integers(1, 6)))
    npol = pick(npol, lambda: int(rng.choice([1, 2, 3, 4, 5], p=[.28, .28, .26, .1, .08])))
    cov = pick(cov, lambda: rng.random() < 0.5)
    stats = pick(stats, lambda: rng.random() < 0.5)
    window = pick(window, lambda: rng.random() < 0.6)
    ragged = pick(ragged, lambda: rng.random() < 0.25)
    diff_times = pick(diff_times, lambda: rng.random() < 0.5)
    order = pick(order, lambda: rng.choice(["blp", "time", "shuffle"]))
    beam = pick(beam, lambda: rng.random() < 0.5)

    uvp = uvpspec.UVPSpec()
    # --- spectral windows ---
    df = float(rng.choice([97656.25, 1e5, 122070.3125]))
    if spws is None:
        spws = []
        nf0 = int(rng.integers(min_nf, max_nf + 1))
        while len(spws) < nspw:
            nf = nf0 if equal_spw_nf else int(rng.integers(min_nf, max_nf + 1))
            start = int(rng.integers(0, 300))
            mode = ndly_mode or rng.choice(["same", "same", "fewer"])
            nd = nf if mode == "same" else int(rng.integers(3, nf + 1))
            if mode == "even":
                nd = nf = nf - nf % 2
            if mode == "odd":
                nd = nf = nf - 1 + nf % 2
            if any(s[0] == start for s in spws):
                continue
            spws.append((start, nf, nd))
        if spw_sorted:
            spws.sort()
    f0 = 110e6
    freqs = [f0 + df * (s + np.arange(nf)) for s, nf, _ in spws]
    dlys = [delays(f, nd) for f, (_, _, nd) in zip(freqs, spws)]
    ncol = [nd for _, _, nd in spws]
    if binned is None and rng.random() < 0.06:
        binned = 2
    if binned:  # averaged within delay bins: fewer delays, symmetric about zero, than columns of the windows
        for i, d in enumerate(dlys):
            c, m = len(d) // 2, min(int(binned), max(1, (len(d) - 1) // 2))
            up = [d[c + 1 + m * k:c + 1 + m * (k + 1)].mean() for k in range((len(d) - c - 1) // m)]
            dlys[i] = np.array([-x for x in up[::-1]] + [0.0] + up)
        spws = [(a, b, len(d)) for (a, b, _), d in zip(spws, dlys)]
    uvp.spw_array = np.arange(len(spws), dtype=np.uint16)
    uvp.freq_array = np.concatenate(freqs)
    uvp.dly_array = np.concatenate(dlys)
    uvp.spw_freq_array = np.concatenate([np.full(len(f), i) for i, f in enumerate(freqs)]).astype(np.uint16)
    uvp.spw_dly_array = np.concatenate([np.full(len(d), i) for i, d in enumerate(dlys)]).astype(np.uint16)
    uvp.Nspws = len(spws)
    uvp.Nspwfreqs = len(uvp.freq_array)
    uvp.Nspwdlys = len(uvp.dly_array)
    uvp.Nfreqs = len(np.unique(uvp.freq_array))
    uvp.Ndlys = len(np.unique(uvp.dly_array))
    uvp.channel_width = np.full(uvp.Nspwfreqs, df)
    # --- antennas and baseline pairs ---
    if antenna is None:
        antenna = antpos(rng, int(rng.integers(4, 8)), "hex" if redundant else "rand")
    ants = sorted(antenna)
    pool = [(a, b) for i, a in enumerate(ants) for b in ants[i + 1:]]
    if rng.random() < 0.3:
        pool = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in pool]
    if rng.random() < 0.15:
        pool += [(a, a) for a in ants[:2]]
    blpairs, tries = [], 0
    while len(blpairs) < nblp and tries < 500:
        tries += 1
        b1 = pool[rng.integers(len(pool))]
        b2 = pool[rng.integers(len(pool))] if rng.random() < 0.7 else b1
        if (b1, b2) not in blpairs:
            blpairs.append((b1, b2))
    nblp = len(blpairs)
    # --- times ---
    secs = 0.2 if odd_times and rng.random() < 0.08 else 10.7
    dt = secs / 86400
    tgrid = t0 + dt * np.arange(max(ntimes, 1))
    off = dt * rng.choice([0.5, 0.25, 1.0]) if diff_times else 0.0
    rows = []
    for k, blp in enumerate(blpairs):
        if ragged:
            keep = np.sort(rng.choice(ntimes, int(rng.integers(1, ntimes + 1)), replace=False))
        else:
            keep = np.arange(ntimes)
        rows += [(k, int(t)) for t in keep]
    if order == "time":
        rows.sort(key=lambda r: (r[1], r[0]))
    elif order == "shuffle":
        rng.shuffle(rows)
        rows = [tuple(r) for r in rows]
    n = len(rows)
    uvp.blpair_array = np.array([blp_int(*blpairs[k]) for k, _ in rows], dtype=np.int64)
    uvp.time_1_array = np.array([tgrid[t] for _, t in rows])
    uvp.time_2_array = uvp.time_1_array + off
    if diff_times and odd_times and rng.random() < 0.25:  # not the same offset for every pair
        per = dt * rng.choice([0.5, 0.25, 1.0, 2.0], len(blpairs))
        uvp.time_2_array = uvp.time_1_array + np.array([per[k] for k, _ in rows])
    uvp.time_avg_array = 0.5 * (uvp.time_1_array + uvp.time_2_array)
    lst0 = 2 * np.pi - 2.2 * secs * SIDEREAL if wrap_lst else rng.uniform(0.1, 5.5)
    lst = lambda t: (lst0 + (t - t0) * 86400 * SIDEREAL) % (2 * np.pi)
    uvp.lst_1_array = lst(uvp.time_1_array)
    uvp.lst_2_array = lst(uvp.time_2_array)
    uvp.lst_avg_array = lst(uvp.time_avg_array)
    uvp.Nbltpairs = n
    uvp.Nblpairs = nblp
    uvp.Ntpairs = len(set(zip(uvp.time_1_array, uvp.time_2_array)))
    uvp.Ntimes = uvp.Ntpairs
    bls = sorted({b for p in blpairs for b in p}, key=lambda b: (b[0] + 100) * 1000 + b[1])
    uvp.bl_array = np.array([(a + 100) * 1000 + b + 100 for a, b in bls], dtype=np.int32)
    enu = np.array([antenna[a] - antenna[b] for a, b in bls])
    uvp.bl_vecs = enu_to_ecef_rot(enu)
    uvp.Nbls = len(bls)
    uvp.telescope_location = TEL_XYZ.copy()
    # --- polarisations ---
    if pols is None:
        idx = rng.choice(len(POLPAIRS), npol, replace=False)
        pols = [POLPAIRS[i] for i in idx]
    npol = len(pols)
    uvp.polpair_array = np.array([pp_int(*p) for p in pols], dtype=np.int32)
    uvp.Npols = npol
    # --- bookkeeping ---
    uvp.vis_units, uvp.norm_units = "mK", "h^-3 Mpc^3"
    uvp.weighting, uvp.taper, uvp.norm = "identity", str(rng.choice(["none", "bh"])), "I"
    uvp.symmetric_taper = True
    uvp.history, uvp.r_params, uvp.cov_model = "synthetic", r_params, "dsets"
    uvp.exact_windows = False
    uvp.scalar_array = rng.uniform(0.5, 2.0, (len(spws), npol))
    l1, l2 = label or ("red", "blue")
    many = label is None and rng.random() < 0.3
    uvp.labels = np.array(sorted({l1, l2} | ({"green", "amber"} if many else set())))
    i1, i2 = list(uvp.labels).index(l1), list(uvp.labels).index(l2)
    uvp.label_1_array = np.full((len(spws), n, npol), i1, dtype=np.int32)
    uvp.label_2_array = np.full((len(spws), n, npol), i2, dtype=np.int32)
    if l1 != l2 and rng.random() < 0.5:  # not all the same way round
        m = rng.random((len(spws), n, npol)) < 0.5
        uvp.label_1_array[m] = i2
        uvp.label_2_array[m] = i1
    if many:
        uvp.label_1_array = rng.integers(0, len(uvp.labels), (len(spws), n, npol)).astype(np.int32)
        uvp.label_2_array = rng.integers(0, len(uvp.labels), (len(spws), n, npol)).astype(np.int32)
    if rng.random() < 0.3:
        uvp.beamfile = str(rng.choice(["one.beamfits", "two.beamfits"]))
    if cosmo:
        uvp.cosmo = conversions.Cosmo_Conversions()
    if beam:
        bf = np.arange(100e6, 160e6, 1e6)
        a = rng.uniform(0.05, 0.1, npol) if beam != "same" else np.full(npol, 0.07)
        uvp.OmegaP = a * (bf[:, None] / 150e6) ** -2
        uvp.OmegaPP = 0.5 * a * (bf[:, None] / 150e6) ** -2
        uvp.beam_freqs = bf
    # --- data ---
    uvp.data_array, uvp.wgt_array = {}, {}
    uvp.integration_array, uvp.nsample_array = {}, {}
    if cov:
        uvp.cov_array_real, uvp.cov_array_imag = {}, {}
    if window:
        uvp.window_function_array = {}
    if stats:
        uvp.stats_array = {"P_N": {}, "noise_err": {}}
        if rng.integers(3) == 0:
            uvp.stats_array["third_err"] = {}
    for i, (_, nf, nd) in enumerate(spws):
        uvp.data_array[i] = (rng.normal(size=(n, nd, npol)) + 1j * rng.normal(size=(n, nd, npol)))
        w = rng.choice([0.0, 1.0], p=[0.2, 0.8], size=(n, nf, 2, npol)) if flags else rng.uniform(
            0.1, 1.0, (n, nf, 2, npol))
        uvp.wgt_array[i] = w.astype(float)
        uvp.integration_array[i] = rng.uniform(5, 20, (n, npol))
        uvp.nsample_array[i] = rng.uniform(1, 10, (n, npol))
        if flags:
            z = rng.random((n, npol)) < 0.2
            y = rng.random(z.shape) < 0.3
            uvp.integration_array[i][z & ~y] = 0.0
            uvp.nsample_array[i][z & y] = 0.0
            uvp.wgt_array[i][np.broadcast_to(z[:, None, None, :], w.shape)] = 0.0
        if cov:
            for arr in (uvp.cov_array_real, uvp.cov_array_imag):
                arr[i] = np.moveaxis(random_psd(rng, nd, (n, npol)), 1, -1)
        if window:
            wf = rng.uniform(0, 1, (n, nd, ncol[i], npol))
            uvp.window_function_array[i] = wf / wf.sum(axis=2, keepdims=True)
        if stats:
            for k in uvp.stats_array:
                uvp.stats_array[k][i] = (rng.uniform(0.5, 2, (n, nd, npol))
                                         + 1j * rng.uniform(0.5, 2, (n, nd, npol)))
    if exact:
        stretch = 1 + 0.1 * np.arange(npol) if rng.random() < 0.5 else np.ones(npol)
        nkp, nkz = int(rng.integers(2, 5)), int(rng.integers(2, 5))
        uvp.exact_windows = True
        uvp.window_function_array, uvp.window_function_kperp, uvp.window_function_kpara = {}, {}, {}
        for i, (_, nf, nd) in enumerate(spws):
            wf = rng.uniform(0, 1, (n, nd, nkp, nkz, npol))
            uvp.window_function_array[i] = wf / wf.sum(axis=(2, 3), keepdims=True)
            uvp.window_function_kperp[i] = np.linspace(0.01, 0.1, nkp)[:, None] * stretch
            uvp.window_function_kpara[i] = np.linspace(0.01, 1, nkz)[:, None] * stretch
    uvp.check()
    uvp._hv_blpairs = blpairs
    uvp._hv_antpos = antenna
    uvp._hv_ncol = ncol
    return uvp


def rand_r_params(rng, u):
    """Weighting parameters for every visibility of an object: {([dataset,] ant1, ant2, pol): parameters}."""
    from hera_pspec import uvpspec_utils as uu
    d = {}
    ds = bool(rng.random() < 0.6)
    for b1, b2 in u._hv_blpairs:
        for pp in u.polpair_array:
            for i, (b, q) in enumerate(((b1, int(pp) // 100 - 20), (b2, int(pp) % 100 - 20))):
                v = {"filter_centers": [0.0], "filter_half_widths": [float(rng.integers(1, 4)) * 1e-7], "filter_factors": [1e-9]}
                d.setdefault(((i,) if ds else ()) + tuple(int(x) for x in b) + (POLSTR[q],), v)
    u.r_params = uu.compress_r_params(d)
    return d


def kept_r_params(d, v):
    """Those of the visibilities an object holds."""
    use = set()
    for blp in set(v.blpair_array.tolist()):
        n = [int(x) for x in (blp // 10**9 - 100, blp // 10**6 % 1000 - 100, blp // 1000 % 1000 - 100, blp % 1000 - 100)]
        for pp in v.polpair_array.tolist():
            use |= {(n[0], n[1], POLSTR[pp // 100 - 20]), (n[2], n[3], POLSTR[pp % 100 - 20])}
    return {k: x for k, x in d.items() if k[-3:] in use}


def describe(uvp):
    return (f"Nspws={uvp.Nspws} spws={[tuple(map(float, s)) for s in uvp.get_spw_ranges()]} "
            f"blpairs={[int(b) for b in dict.fromkeys(uvp.blpair_array.tolist())]} "
            f"Nblt={uvp.Nbltpairs} Nt={uvp.Ntimes} pols={uvp.polpair_array.tolist()} "
            f"folded={uvp.folded} cov={hasattr(uvp, 'cov_array_real')} "
            f"stats={hasattr(uvp, 'stats_array')} win={hasattr(uvp, 'window_function_array')} "
            f"exact={uvp.exact_windows}")


# ---------------------------------------------------------------------------
# the logical content of a UVPSpec: one record per spectrum
# ---------------------------------------------------------------------------

def records(uvp):
    """{(first freq, Nfreqs, Ndlys, blpair, t1, t2, polpair): record}"""
    out = {}
    blv = {int(b): uvp.bl_vecs[i] for i, b in enumerate(uvp.bl_array)}
    for s in range(uvp.Nspws):
        fi = np.where(uvp.spw_freq_array == s)[0]
        di = np.where(uvp.spw_dly_array == s)[0]
        fr, dl = uvp.freq_array[fi], uvp.dly_array[di]
        for j in range(len(uvp.blpair_array)):
            blp = int(uvp.blpair_array[j])
            for k, pp in enumerate(uvp.polpair_array):
                key = (round(float(fr[0]), 3), len(fr), len(dl), blp, float(uvp.time_1_array[j]),
                       float(uvp.time_2_array[j]), int(pp))
                r = {
                    "data": uvp.data_array[s][j, :, k], "wgts": uvp.wgt_array[s][j, :, :, k],
                    "integ": uvp.integration_array[s][j, k],
                    "nsample": uvp.nsample_array[s][j, k],
                    "freqs": fr, "dlys": dl,
                    "time_avg": uvp.time_avg_array[j], "lst_1": uvp.lst_1_array[j],
                    "lst_2": uvp.lst_2_array[j], "lst_avg": uvp.lst_avg_array[j],
                    "scalar": uvp.scalar_array[s, k],
                    "bl_vec1": blv.get(blp // 10**6), "bl_vec2": blv.get(blp % 10**6),
                }
                try:
                    r["label_1"] = str(uvp.labels[uvp.label_1_array[s, j, k]])
                    r["label_2"] = str(uvp.labels[uvp.label_2_array[s, j, k]])
                except (IndexError, AttributeError) as e:
                    r["label_1"] = r["label_2"] = f"<bad label index {e}>"
                if hasattr(uvp, "cov_array_real"):
                    r["cov_real"] = uvp.cov_array_real[s][j, :, :, k]
                    r["cov_imag"] = uvp.cov_array_imag[s][j, :, :, k]
                if hasattr(uvp, "window_function_array"):
                    r["window"] = uvp.window_function_array[s][j, ..., k]
                    if uvp.exact_windows:
                        r["kperp"] = uvp.window_function_kperp[s][:, k]
                        r["kpara"] = uvp.window_function_kpara[s][:, k]
                if hasattr(uvp, "stats_array"):
                    for st in uvp.stats_array:
                        r["stat:" + st] = uvp.stats_array[st][s][j, :, k]
                out[key] = r
    return out


def same_record(a, b, skip=(), rtol=1e-12):
    """None if equal, else the name of the first differing field."""
    for f in sorted(set(a) | set(b)):
        if f in skip:
            continue
        if f not in a or f not in b:
            return f"{f} missing on one side"
        x, y = a[f], b[f]
        if x is None or y is None or isinstance(x, str):
            if not (x is None and y is None) and not (isinstance(x, str) and x == y):
                return f"{f}: {x} vs {y}"
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return f"{f}: shape {x.shape} vs {y.shape}"
        # copied values must match entry by entry, computed ones to the scale of their array
        scale = np.max(np.abs(y[np.isfinite(y)]), initial=0) if rtol > 1e-12 and f.startswith("cov") else 0
        if not np.allclose(x, y, rtol=rtol, atol=1e-300 + rtol * scale, equal_nan=True):
            return f"{f}: {x.ravel()[:4]} vs {y.ravel()[:4]}"
    return None


def compare_records(ctx, monitor, got, want, what="", skip=(), rtol=1e-12, key=None):
    """Same key set and same content."""
    kg, kw = set(got), set(want)
    ok = ctx.check(monitor, kg == kw and len(kw) > 0, lambda: (
        f"{what}: spectra present differ: {len(kg - kw)} extra e.g. {list(kg - kw)[:1]}, "
        f"{len(kw - kg)} missing e.g. {list(kw - kg)[:1]} of {len(kw)}"), key)
    if not ok:
        return False
    for k in sorted(kw):
        d = same_record(got[k], want[k], skip, rtol)
        if not ctx.check(monitor, d is None, lambda: f"{what}: spectrum {k}: {d}", key):
            return False
    return True


def structure_errors(uvp, data=True):
    """Array shapes and counters of a UVPSpec that must agree with each other."""
    e = []

    def chk(ok, msg):
        if not ok:
            e.append(msg)

    n, npol, ns = uvp.Nbltpairs, uvp.Npols, uvp.Nspws
    for a in ["blpair_array", "time_1_array", "time_2_array", "time_avg_array",
              "lst_1_array", "lst_2_array", "lst_avg_array"]:
        chk(len(getattr(uvp, a)) == n, f"{a} length {len(getattr(uvp, a))} != Nbltpairs {n}")
    chk(len(set(zip(uvp.blpair_array.tolist(), uvp.time_1_array.tolist(),
                    uvp.time_2_array.tolist()))) == n, "duplicate baseline-pair-time")
    chk(uvp.Nblpairs == len(set(uvp.blpair_array.tolist())), f"Nblpairs {uvp.Nblpairs}")
    chk(len(uvp.polpair_array) == npol, "polpair_array")
    chk(list(uvp.spw_array) == list(range(ns)), "spw_array")
    chk(set(uvp.spw_freq_array.tolist()) == set(range(ns)), "spw_freq_array")
    chk(set(uvp.spw_dly_array.tolist()) == set(range(ns)), "spw_dly_array")
    chk(len(uvp.freq_array) == len(uvp.spw_freq_array) == uvp.Nspwfreqs, "Nspwfreqs")
    chk(len(uvp.dly_array) == len(uvp.spw_dly_array) == uvp.Nspwdlys, "Nspwdlys")
    need = {int(b) // 10**6 for b in uvp.blpair_array} | {int(b) % 10**6 for b in uvp.blpair_array}
    chk(need <= set(uvp.bl_array.tolist()), "bl_array lacks a baseline in use")
    chk(len(uvp.bl_array) == uvp.Nbls == len(uvp.bl_vecs), "Nbls")
    chk(uvp.scalar_array.shape == (ns, npol), f"scalar_array {uvp.scalar_array.shape}")
    for a in ("label_1_array", "label_2_array"):
        if hasattr(uvp, a):
            chk(np.shape(getattr(uvp, a)) == (ns, n, npol), f"{a} {np.shape(getattr(uvp, a))} for {(ns, n, npol)}")
            chk(np.max(getattr(uvp, a), initial=-1) < len(uvp.labels), f"{a} points past the labels")
    if not data:
        return e
    for s in range(ns):
        nd = int(np.sum(uvp.spw_dly_array == s))
        nf = int(np.sum(uvp.spw_freq_array == s))
        chk(uvp.data_array[s].shape == (n, nd, npol), f"data_array {uvp.data_array[s].shape}")
        chk(uvp.wgt_array[s].shape == (n, nf, 2, npol), f"wgt_array {uvp.wgt_array[s].shape}")
        chk(uvp.integration_array[s].shape == (n, npol), "integration_array")
        chk(uvp.nsample_array[s].shape == (n, npol), "nsample_array")
        if hasattr(uvp, "cov_array_real"):
            chk(uvp.cov_array_real[s].shape == (n, nd, nd, npol), "cov_array_real")
            chk(uvp.cov_array_imag[s].shape == (n, nd, nd, npol), "cov_array_imag")
        if hasattr(uvp, "window_function_array"):
            sh = uvp.window_function_array[s].shape
            chk(sh[:2] == (n, nd) and sh[-1] == npol, f"window_function_array {sh}")
        if hasattr(uvp, "stats_array"):
            for st in uvp.stats_array:
                chk(uvp.stats_array[st][s].shape == (n, nd, npol), f"stats {st}")
    return e


def snapshot(obj):
    """Deep, comparable copy of an object's state (for no-mutation monitors)."""
    return copy.deepcopy({k: v for k, v in obj.__dict__.items() if not k.startswith("_")})


def same_state(a, b, path="", rtol=0.0):
    """None if equal, else where they differ.  NaNs compare equal."""
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return f"{path}: type {type(a)} vs {type(b)}"
    if isinstance(a, dict):
        if set(map(str, a)) != set(map(str, b)):
            return f"{path}: keys {sorted(set(map(str, a)) ^ set(map(str, b)))}"
        for k in a:
            d = same_state(a[k], b[k], f"{path}[{k!r}]", rtol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same_state(x, y, f"{path}[{i}]", rtol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: {a.shape}/{a.dtype} vs {b.shape}/{b.dtype}"
        if a.dtype.kind in "fc":
            ok = np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        return None if ok else f"{path}: arrays differ"
    if isinstance(a, (str, bytes, int, float, complex, bool, type(None), np.generic)):
        try:
            return None if (a == b or (a != a and b != b)) else f"{path}: {a} vs {b}"
        except Exception:
            return None
    if hasattr(a, "get_params"):
        return None if a.get_params() == b.get_params() else f"{path}: params"
    return None


def permute(uvp, rows=None, pols=None):
    """The same spectra with the row axis and/or polarisation axis re-ordered."""
    u = copy.deepcopy(uvp)
    if rows is not None:
        for a in ["blpair_array", "time_1_array", "time_2_array", "time_avg_array",
                  "lst_1_array", "lst_2_array", "lst_avg_array"]:
            setattr(u, a, getattr(u, a)[rows])
    r = slice(None) if rows is None else rows
    p = slice(None) if pols is None else pols
    u.polpair_array = u.polpair_array[p]
    u.scalar_array = u.scalar_array[:, p]
    for a in ["label_1_array", "label_2_array"]:
        setattr(u, a, getattr(u, a)[:, r][:, :, p])
    for a in ["OmegaP", "OmegaPP"]:
        if hasattr(u, a):
            setattr(u, a, getattr(u, a)[:, p])
    dicts = [u.data_array, u.wgt_array, u.integration_array, u.nsample_array]
    dicts += [getattr(u, a) for a in ("cov_array_real", "cov_array_imag", "window_function_array")
              if hasattr(u, a)]
    dicts += list(getattr(u, "stats_array", {}).values())
    for d in dicts:
        for s in d:
            d[s] = d[s][r][..., p]
    if u.exact_windows:
        for d in (u.window_function_kperp, u.window_function_kpara):
            for s in d:
                d[s] = d[s][:, p]
    return u


def beam_columns(uvp):
    """{polpair: beam integrals} -- the per-polarisation beam metadata."""
    if not hasattr(uvp, "OmegaP"):
        return None
    if np.shape(uvp.OmegaP) != (len(uvp.beam_freqs), uvp.Npols):
        return f"shape {np.shape(uvp.OmegaP)}"
    return {int(p): (uvp.OmegaP[:, i].tolist(), uvp.OmegaPP[:, i].tolist())
            for i, p in enumerate(uvp.polpair_array)}


def relabel(rng, uvp):
    """The same object with its table of dataset labels pruned or re-ordered."""
    u = copy.deepcopy(uvp)
    used = sorted({int(i) for i in u.label_1_array.ravel()} | {int(i) for i in u.label_2_array.ravel()})
    keep = used if rng.random() < 0.5 else list(range(len(u.labels)))
    if rng.random() < 0.3:
        keep = [keep[i] for i in rng.permutation(len(keep))]
    new = np.full(len(u.labels), -1, np.int32)
    new[keep] = np.arange(len(keep))
    u.labels = u.labels[keep]
    u.label_1_array, u.label_2_array = new[u.label_1_array], new[u.label_2_array]
    return u


META = ["vis_units", "norm_units", "weighting", "taper", "norm", "folded", "cov_model",
        "symmetric_taper", "exact_windows", "beamfile"]


def meta(uvp):
    d = {k: getattr(uvp, k, None) for k in META}
    d["cosmo"] = uvp.cosmo.get_params() if hasattr(uvp, "cosmo") else None
    if not hasattr(uvp, "cov_array_real"):
        d.pop("cov_model")  # describes the covariances
    d["tel"] = np.asarray(uvp.telescope_location).tolist()
    return {k: (bool(v) if isinstance(v, np.bool_) else v) for k, v in d.items()}


def getter_records(uvp):
    """Logical content as seen through the public getters (works when folded)."""
    out = {}
    for s in range(uvp.Nspws):
        sr = tuple(float(x) for x in uvp.get_spw_ranges(s)[0])
        for blp in dict.fromkeys(uvp.blpair_array.tolist()):
            j = uvp.blpair_to_indices(blp)
            for pp in uvp.polpair_array:
                k = (s, int(blp), int(pp))
                arrs = {"data": uvp.get_data(k), "wgts": uvp.get_wgts(k),
                        "integ": uvp.get_integrations(k), "nsample": uvp.get_nsamples(k)}
                if hasattr(uvp, "cov_array_real"):
                    arrs["cov_real"] = uvp.get_cov(k)
                    arrs["cov_imag"] = uvp.get_cov(k, component="imag")
                if hasattr(uvp, "window_function_array"):
                    arrs["window"] = uvp.get_window_function(k)
                for st in getattr(uvp, "stats_array", {}):
                    arrs["stat:" + st] = uvp.get_stats(st, k)
                for m, row in enumerate(j):
                    r = {a: np.asarray(v[m]) for a, v in arrs.items()}
                    r["dlys"] = np.asarray(uvp.get_dlys(s))
                    for a in ("time_1", "time_2", "time_avg", "lst_1", "lst_2", "lst_avg"):
                        r[a] = getattr(uvp, a + "_array")[row]
                    r["label_1"] = str(uvp.labels[uvp.label_1_array[s, row, list(uvp.polpair_array).index(pp)]])
                    r["label_2"] = str(uvp.labels[uvp.label_2_array[s, row, list(uvp.polpair_array).index(pp)]])
                    out[(sr, int(blp), float(uvp.time_1_array[row]), float(uvp.time_2_array[row]), int(pp))] = r
    return out


def consistent(ctx, u, what=""):
    """Monitor: the object's arrays and counters fit its own axes."""
    bad = structure_errors(u, data=not u.folded)
    return ctx.check("axes", not bad, lambda: f"{what}: {bad[:4]}")
