"""C20: pseudo-Stokes visibilities."""
import contextlib
import io
import itertools
import os

import numpy as np
from hera_pspec import pstokes
from pyuvdata import UVData

from hv import vis
from hv.core import Case
from hv.prog import run_script

ID = "C20"
RULE = ("random visibilities of four linear polarizations (flags, sample counts with zeros, any row order, one or several polarizations per object, both "
        "conventions), given as objects, files, arrays or to the script; every number is compared with the definition; "
        "distinct = distinct parameter, convention, way of giving the data and content")
REQUIRE = {"data": 100, "flags": 100, "samples": 100, "metadata": 100, "inputs-kept": 100, "refused": 50, "sky": 20, "script": 40, "files": 8, "pick": 40}
ASSUMPTIONS = ["one spectral window per dataset"]
W = {"pI": (-5, -6, 1, 1), "pQ": (-5, -6, 1, -1), "pU": (-7, -8, 1, 1), "pV": (-7, -8, -1j, 1j)}
N2S = {-5: "xx", -6: "yy", -7: "xy", -8: "yx"}


def scene(rng, pols=("xx", "yy", "xy", "yx"), units="Jy", autos=False, **kw):
    ants = vis.line_array(rng, int(rng.integers(2, 5)))
    bls = list(itertools.combinations(sorted(ants), 2))
    pols = [pols[i] for i in rng.permutation(len(pols))]
    u = vis.make_uvd(rng, ants, bls, ntimes=int(rng.integers(1, 4)), nfreqs=int(rng.integers(2, 7)), pols=pols,
                     flags=float(rng.choice([0.0, 0.3])), nsamples=True, shuffle=bool(rng.random() < 0.5), units=units, **kw)
    if rng.random() < 0.5:
        z = rng.random(u.nsample_array.shape) < 0.2
        u.nsample_array[z] = 0
    u.pol_convention = [None, "avg", "sum"][rng.integers(3)]
    u.history = f"history {rng.integers(1e9)}"
    return u


def plane(u, p, what="data"):
    return getattr(u, what + "_array")[..., u.polarization_array.tolist().index(p)]


def want(u1, u2, name, conv):
    p, q, a, b = W[name]
    d = (a * plane(u1, p) + b * plane(u2, q)) * (0.5 if conv == "avg" else 1.0)
    n1, n2 = plane(u1, p, "nsample"), plane(u2, q, "nsample")
    zero = (n1 <= 0) | (n2 <= 0)
    f = plane(u1, p, "flag") | plane(u2, q, "flag") | zero
    n = np.where(zero, 0, 4 / (1 / np.where(zero, 1, n1) + 1 / np.where(zero, 1, n2)))
    return d, f, n


def split(rng, u, name):
    """Two objects holding the needed polarizations."""
    how = rng.choice(["same", "multi", "single"])
    if how == "same":
        return u, u, how
    if how == "multi":
        return u.copy(), u.copy(), how
    p, q = W[name][:2]
    return u.select(polarizations=[p], inplace=False), u.select(polarizations=[q], inplace=False), how


META = ("time_array", "lst_array", "ant_1_array", "ant_2_array", "freq_array", "integration_time", "channel_width", "uvw_array", "baseline_array")


def compare(ctx, s, u1, u2, name, conv, mon="data"):
    d, f, n = want(u1, u2, name, conv)
    k = s.polarization_array.tolist().index(vis.POLNUM[name])
    ctx.close("data" if mon == "data" else mon, s.data_array[..., k], d, 1e-12 if mon == "data" else 1e-5, what=f"{name} visibilities")
    ctx.equal("flags" if mon == "data" else mon, s.flag_array[..., k], f, f"{name} flags")
    ctx.close("samples" if mon == "data" else mon, s.nsample_array[..., k], n, 1e-12 if mon == "data" else 1e-5, what=f"{name} samples")


def objects(ctx):
    rng = ctx.rng
    u = scene(rng)
    name = str(rng.choice(list(W)))
    u1, u2, how = split(rng, u, name)
    if how != "same" and rng.random() < 0.5:  # different content in the second object
        u2.data_array = u2.data_array * 1.7
        u2.flag_array = rng.random(u2.flag_array.shape) < 0.2
        u2.nsample_array = u2.nsample_array + 1.0
    conv = u.pol_convention or "avg"
    ctx.note(pstokes=name, how=how, convention=u.pol_convention, pols=u.polarization_array)
    snaps = vis.snapshot(u1), vis.snapshot(u2)
    arg = name if rng.random() < 0.5 else vis.POLNUM[name]
    s = pstokes.construct_pstokes(u1, u2, pstokes=arg, history="EXTRA")
    compare(ctx, s, u1, u2, name, conv)
    ctx.equal("metadata", s.polarization_array.tolist(), [vis.POLNUM[name]], "polarization")
    for k in META:
        ctx.check("metadata", np.array_equal(getattr(s, k), getattr(u1, k)), k)
    ctx.equal("metadata", (s.pol_convention, s.vis_units, s.Npols), (conv, u1.vis_units, 1), "convention and units")
    ctx.check("metadata", all(x in s.history for x in (u1.history, u2.history, "EXTRA")), "histories are kept")
    d = [vis.same(a, b) for a, b in zip((u1, u2), snaps)]
    ctx.check("inputs-kept", d == [None, None], lambda: f"input changed: {d}")
    s.data_array[:] = 0
    s.flag_array[:] = True
    d = [vis.same(a, b) for a, b in zip((u1, u2), snaps)]
    ctx.check("inputs-kept", d == [None, None], lambda: f"shares storage with the input: {d}")
    if how != "same":
        bad = u2.copy()
        kind = str(rng.choice(["freqs", "times", "bls", "pols", "conv", "type"]))
        if kind == "freqs":
            bad.freq_array = bad.freq_array + 1e4
        elif kind == "times":
            bad.time_array = bad.time_array + 1e-3
        elif kind == "bls":
            bad.baseline_array = bad.baseline_array[::-1].copy() + 1
        elif kind == "pols":
            bad.polarization_array = np.array([W[name][0] if bad.Npols == 1 else -1] + [-2, -3, -4][:bad.Npols - 1])
        elif kind == "conv":
            bad.pol_convention = "avg" if conv == "sum" else "sum"
        else:
            bad = 5
        ctx.raises("refused", lambda: pstokes.construct_pstokes(u1, bad, pstokes=arg), (ValueError, AssertionError), f"second dataset with other {kind}")
    ctx.raises("refused", lambda: pstokes.construct_pstokes(u1, u2, pstokes=[5, -5, "xx", "pX"][rng.integers(4)]), Exception, "not a Stokes parameter")
    ctx.sig("obj", name, how, u.pol_convention, bool(u.flag_array.any()))


def sky(ctx):
    """A polarized sky seen through the definition of the feeds."""
    rng = ctx.rng
    u = scene(rng)
    conv = u.pol_convention = str(rng.choice(["avg", "sum"]))
    sh = u.data_array.shape[:-1]
    S = {k: rng.normal(size=sh) + 1j * rng.normal(size=sh) for k in W}
    lin = {-5: S["pI"] + S["pQ"], -6: S["pI"] - S["pQ"], -7: S["pU"] + 1j * S["pV"], -8: S["pU"] - 1j * S["pV"]}
    for p in lin:
        u.data_array[..., u.polarization_array.tolist().index(p)] = lin[p] * (1.0 if conv == "avg" else 0.5)
    for k in W:
        s = pstokes.construct_pstokes(u, u, pstokes=k)
        ctx.close("sky", s.data_array[..., 0], S[k], 1e-12, what=f"{k} of a sky of known polarization")
    ctx.sig("sky", conv)


def arrays(ctx):
    rng = ctx.rng
    sh = tuple(rng.integers(1, 5, int(rng.integers(1, 4))))
    name = str(rng.choice(list(W)))
    p, q, a, b = W[name]
    if rng.random() < 0.3:
        p, q, a, b = q, p, b, a
    conv = str(rng.choice(["avg", "sum"]))
    v = [rng.normal(size=sh) + 1j * rng.normal(size=sh) for _ in range(2)]
    f = [rng.random(sh) < 0.3 for _ in range(2)]
    n = [rng.integers(0, 4, sh).astype(rng.choice([float, int])) for _ in range(2)]
    use = [bool(rng.random() < 0.8) for _ in range(3)]
    sp = lambda x: [x, N2S[x], N2S[x].upper()][rng.integers(3)]
    keep = [[x.copy() for x in y] for y in (v, f, n)]
    ctx.note(pols=(p, q), pstokes=name, convention=conv, use=use)
    d, fl, ns = pstokes._combine_pol_arrays(sp(p), sp(q), name if rng.random() < 0.5 else vis.POLNUM[name], conv,
                                            v if use[0] else None, f if use[1] else None, n if use[2] else None)
    zero = (n[0] <= 0) | (n[1] <= 0)
    if use[0]:
        ctx.close("data", d, (a * v[0] + b * v[1]) * (0.5 if conv == "avg" else 1), 1e-13, what="visibilities")
    if use[1]:
        ctx.equal("flags", fl, (f[0] | f[1] | zero) if use[2] else (f[0] | f[1]), "flags")
    if use[2]:
        with np.errstate(all="ignore"):
            ctx.close("samples", ns, np.where(zero, 0, 4 / (1 / n[0].astype(float) + 1 / n[1].astype(float))), 1e-13, what="samples")
    for got, u in zip((d, fl, ns), use):
        ctx.check("data", (got is None) == (not u), "absent arrays stay absent")
    ctx.check("inputs-kept", all(np.array_equal(x, y) for g, h in zip(keep, (v, f, n)) for x, y in zip(g, h)), "arrays changed")
    ctx.raises("refused", lambda: pstokes._combine_pol_arrays(p, q, name, "mean", v), ValueError, "convention")
    ctx.raises("refused", lambda: pstokes._combine_pol_arrays(p, q, name, conv, v + v), ValueError, "more than two arrays")
    ctx.raises("refused", lambda: pstokes._combine_pol_arrays(p, {-5: -7, -6: -7, -7: -5, -8: -6}[p], name, conv, v), AssertionError, "wrong polarization")
    ctx.raises("refused", lambda: pstokes._combine_pol_arrays(p, q, name, conv, [v[0], np.zeros(7)[:, None, None, None]]), AssertionError, "shapes")
    ctx.sig("arrays", name, conv, tuple(use), len(sh))


def pick(ctx):
    rng = ctx.rng
    u = scene(rng)
    ds = [u.select(polarizations=[p], inplace=False) for p in u.polarization_array]
    extra = u.select(polarizations=[int(u.polarization_array[0])], inplace=False)
    ds.append(extra)
    for name in W:
        p, q = W[name][:2]
        a = pstokes.filter_dset_on_stokes_pol(ds, name if rng.random() < 0.5 else vis.POLNUM[name])
        ctx.equal("pick", [int(x.polarization_array[0]) for x in a], [p, q], f"datasets for {name}")
        ctx.check("pick", any(a[0] is x for x in ds) and any(a[1] is x for x in ds), "datasets are those given")
        s = pstokes.construct_pstokes(a[0], a[1], pstokes=name)
        compare(ctx, s, u, u, name, u.pol_convention or "avg")
        ctx.raises("refused", lambda: pstokes.filter_dset_on_stokes_pol([x for x in ds if x.polarization_array[0] != q], name), AssertionError, "missing")
    ctx.sig("pick", tuple(u.polarization_array.tolist()))


def files(ctx):
    rng = ctx.rng
    u = scene(rng)
    u.reorder_blts("time")
    f = os.path.join(ctx.tmp, "a.uv")
    with contextlib.redirect_stdout(io.StringIO()):
        u.write_miriad(f)
    r = UVData()
    r.read_miriad(f)
    name = str(rng.choice(list(W)))
    ctx.note(pstokes=name)
    sel = {}
    if rng.random() < 0.5:
        b = (int(r.ant_1_array[0]), int(r.ant_2_array[0]))
        sel["bls"] = [b]
        r.select(bls=[b])
    if rng.random() < 0.5:
        t = np.unique(r.time_array)
        sel["time_range"] = [t[0] - 1e-6, t[len(t) // 2] + 1e-6]
        r.select(time_range=sel["time_range"])
    a, b = [(f, f), (f, r), (r, f)][rng.integers(3)]
    s = pstokes.construct_pstokes(a, b, pstokes=name, **sel)
    compare(ctx, s, r, r, name, r.pol_convention or "avg", mon="files")
    ctx.check("files", np.allclose(s.time_array, r.time_array, rtol=0, atol=1e-8) and np.array_equal(s.baseline_array, r.baseline_array), "rows")
    ctx.sig("files", name, tuple(sel))


def script(ctx):
    rng = ctx.rng
    u = scene(rng)
    f, o = os.path.join(ctx.tmp, "in.uvh5"), os.path.join(ctx.tmp, "out.uvh5")
    u.write_uvh5(f)
    r = UVData()
    r.read(f)
    before = open(f, "rb").read()
    names = [str(x) for x in rng.permutation(list(W))[:int(rng.integers(1, 5))]]
    argv, keepv, default, inplace, clob = [f], bool(rng.random() < 0.4), bool(rng.random() < 0.25), bool(rng.random() < 0.3), bool(rng.random() < 0.6)
    if default:
        names = ["pI"]
    else:
        argv += ["--pstokes"] + names
    if not inplace:
        argv += ["--outputdata", o]
    if keepv:
        argv.append("--keep_vispols")
    if clob:
        argv.append("--clobber")
    exists = inplace
    if not inplace and rng.random() < 0.4:
        u.write_uvh5(o)
        exists = True
    tgt = f if inplace else o
    old = open(tgt, "rb").read() if exists else None
    ctx.note(argv=argv, exists=exists)
    err = run_script("generate_pstokes_run.py", argv, log=False)
    if exists and not clob:
        ctx.check("script", err is not None, "an existing file is not overwritten without --clobber")
        ctx.check("script", open(tgt, "rb").read() == old, "an existing file was changed without --clobber")
        return
    ctx.must("script", err is None, f"refused: {err!r}")
    if not inplace:
        ctx.check("script", open(f, "rb").read() == before, "input file changed")
    s = UVData()
    s.read(tgt)
    pols = {vis.POLNUM[n] for n in names} | (set(r.polarization_array.tolist()) if keepv else set())
    ctx.equal("script", set(s.polarization_array.tolist()), pols, "polarizations written")
    ctx.equal("script", s.Npols, len(pols), "number of polarizations")
    key = lambda x: np.lexsort((x.time_array, x.baseline_array))
    s.reorder_blts(key(s))
    r.reorder_blts(key(r))
    for n in names:
        compare(ctx, s, r, r, n, u.pol_convention or "avg", mon="script")
    if keepv:
        for p in r.polarization_array:
            for w in ("data", "flag", "nsample"):
                ctx.check("script", np.array_equal(plane(s, p, w), plane(r, p, w)), f"{w} of the linear polarization {p}")
    ctx.sig("script", len(names), keepv, inplace, clob, default)


CASES = [Case("objects", objects, 60, 800), Case("sky", sky, 8, 60), Case("arrays", arrays, 60, 800), Case("pick", pick, 12, 100), Case("files", files, 8, 60),
         Case("script", script, 16, 160)]
