"""Synthetic visibility datasets with known content."""
import copy

import astropy.units as un
import numpy as np
from astropy.coordinates import EarthLocation
from astropy.utils import iers
from pyuvdata import Telescope, UVData

iers.conf.auto_download = False
iers.earth_orientation_table.set(iers.IERS_B.open())  # read once, before workers are forked
LOC = EarthLocation.from_geodetic(lat=-30.72 * un.deg, lon=21.43 * un.deg, height=1051 * un.m)
POLNUM = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "pI": 1, "pQ": 2, "pU": 3, "pV": 4}


def telescope(ants, feeds=("x", "y"), xorient="east"):
    """ants: {number: (E, N, U)}"""
    from pyuvdata import utils as uvutils
    nums = sorted(ants)
    enu = np.array([ants[k] for k in nums], float)
    ecef = uvutils.ECEF_from_ENU(enu, center_loc=LOC)
    c = np.array([LOC.x.to_value("m"), LOC.y.to_value("m"), LOC.z.to_value("m")])
    return Telescope.new(location=LOC, name="synthetic", instrument="synthetic", mount_type="fixed",
                         antenna_positions={k: p - c for k, p in zip(nums, ecef)},
                         feeds=list(feeds), x_orientation=xorient)


def make_uvd(rng, ants, bls, ntimes=5, nfreqs=10, pols=("xx",), f0=150e6, df=1e5, t0=2458000.2, dt=10.7,
             flags=0.0, nsamples=False, time_fast=None, units="mK", amp=1.0, shuffle=False, xorient="east",
             integ=None):
    """Random complex visibilities; flags is the fraction flagged."""
    tel = telescope(ants, xorient=xorient)
    times = t0 + np.arange(ntimes) * dt / 86400.0
    u = UVData.new(freq_array=f0 + df * np.arange(nfreqs), polarization_array=np.array([POLNUM[p] for p in pols]),
                   times=times, telescope=tel, antpairs=np.array(bls), do_blt_outer=True,
                   integration_time=float(dt if integ is None else integ), vis_units="Jy", empty=True,
                   channel_width=float(df), time_axis_faster_than_bls=bool(
                       rng.random() < 0.5 if time_fast is None else time_fast))
    sh = u.data_array.shape
    u.data_array = amp * (rng.normal(size=sh) + 1j * rng.normal(size=sh))
    u.flag_array = rng.random(sh) < flags
    u.nsample_array = rng.integers(1, 6, sh).astype(float) if nsamples else np.ones(sh)
    if shuffle:
        u.reorder_blts(rng.permutation(u.Nblts))
    u.vis_units = units
    return u


def rows(u, bl):
    """Row numbers of a baseline (either orientation) and whether it is stored reversed."""
    a1, a2 = np.asarray(u.ant_1_array), np.asarray(u.ant_2_array)
    r = np.where((a1 == bl[0]) & (a2 == bl[1]))[0]
    if r.size:
        return r, False
    return np.where((a1 == bl[1]) & (a2 == bl[0]))[0], True


def wf(u, bl, pol, what="data"):
    """(Ntimes, Nfreqs) waterfall straight from the arrays; pol is an integer."""
    r, rev = rows(u, bl)
    pols = u.polarization_array.tolist()
    if rev and pol in (-7, -8):
        pol = -15 - pol
    x = getattr(u, what + "_array")[r][:, :, pols.index(pol)]
    return np.conj(x) if rev and what == "data" else x


def x_(u, bl, pol):
    return wf(u, bl, pol).T


def w_(u, bl, pol):
    return (~wf(u, bl, pol, "flag")).astype(float).T


def line_array(rng, n=5, sep=14.6):
    """Antennas on a line (many redundant baselines)."""
    nums = sorted(rng.choice(200, n, replace=False).tolist())
    return {int(k): np.array([sep * i, 0.0, 0.0]) for i, k in enumerate(nums)}


def grid_array(rng, nx=3, ny=2, sep=14.6, jitter=0.0):
    nums = rng.choice(200, nx * ny, replace=False).tolist()
    out = {}
    for m, k in enumerate(nums):
        i, j = m % nx, m // nx
        out[int(k)] = np.array([sep * (i + 0.5 * (j % 2)), sep * 0.866 * j, 0.0]) + rng.uniform(-1, 1, 3) * jitter * [1, 1, 0]
    return out


def snapshot(u):
    return {k: copy.deepcopy(getattr(u, k)) for k in
            ("data_array", "flag_array", "nsample_array", "time_array", "lst_array", "ant_1_array", "ant_2_array",
             "polarization_array", "freq_array", "integration_time", "channel_width", "vis_units", "history",
             "extra_keywords", "pol_convention")}


def same(u, snap):
    for k, v in snap.items():
        x = getattr(u, k)
        if isinstance(v, np.ndarray):
            if x.shape != v.shape or not np.array_equal(x, v, equal_nan=v.dtype.kind in "fc"):
                return k
        elif x != v:
            return k
    return None
