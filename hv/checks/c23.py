"""C23: pipelines and command-line programs give what their steps give."""
import contextlib
import copy
import io
import itertools
import json
import os
import pickle
import warnings
import zlib
from pathlib import Path

import h5py
import numpy as np
from hera_pspec import PSpecContainer, PSpecData, cli, conversions, grouping, pspecbeam, uvpspec, utils
from hera_pspec.pspecdata import pspec_run
from pyuvdata import UVBeam, UVCal, UVData

from hv import gen, scene, vis
from hv.checks import c17, c21
from hv.checks.c21 import make_uvbeam
from hv.core import Case
from hv.prog import run_script

ID = "C23"
RULE = ("random datasets (objects, files, several files each), calibrations and options run through the pipeline in Python and by its script, and random containers through the other programs; "
        "what is stored is compared with the steps done one by one; distinct = distinct program and combination of options")
REQUIRE = {"names": 60, "spectra": 80, "kept": 40, "nothing": 4, "refused": 40, "script": 40, "bootstrap": 15, "noise": 15, "merge-names": 15, "merge-files": 20, "extras": 8}
ASSUMPTIONS = ["each step on its own is judged by the property it belongs to", "datasets given as objects are not used again (documented)"]
TAPERS = ["none", "bh", "hann", "tukey"]


def state(u):
    s = gen.snapshot(u)
    for k in ("history", "filename"):
        s.pop(k, None)
    return s


def stored(tmp, u):
    """The state of an object after it has been in a file."""
    p = os.path.join(tmp, "ref.h5")
    u.write_hdf5(p, overwrite=True)
    v = uvpspec.UVPSpec()
    v.read_hdf5(p)
    return state(v)


def same(ctx, mon, got, want, what):
    got, want = dict(got), dict(want)
    d = gen.same_state(got, want, rtol=1e-9)
    return ctx.check(mon, d is None, lambda: f"{what}: {d}")


class Known(dict):
    """Covariances for whatever visibilities, times and conjugations are asked for."""

    def __init__(self, nf, seed):
        super().__init__()
        self.nf, self.seed = nf, seed

    def keys(self):
        return self

    def __contains__(self, k):
        return k[2] == "mine"

    def __getitem__(self, k):
        (d1, d2), (b1, b2), _, t, c1, c2 = k

        def A(*x):
            r = np.random.default_rng([self.seed, zlib.crc32(repr([str(q) for q in x]).encode())])
            return r.normal(size=(self.nf, self.nf)) + 1j * r.normal(size=(self.nf, self.nf))

        if c1 == c2:
            return np.zeros((self.nf, self.nf), complex)
        C = A(d1, *b1, t) @ A(d2, *b2, t).conj().T
        return C if c2 else C.conj()


class Setup:
    """Datasets and options of one pipeline run."""

    def __init__(self, ctx, cmdline=False):
        rng = self.rng = ctx.rng
        self.cmd = cmdline
        nd = self.nd = int(rng.integers(1, 4))
        nf, nt = int(rng.integers(8, 16)), int(rng.integers(4, 9))
        pols = ["xx", "yy"] if rng.random() < 0.8 else ["pI", "pQ"]
        ants = vis.line_array(rng, 4) if rng.random() < 0.5 else vis.grid_array(rng, 2, 2)
        ks = list(ants)
        autos = self.autos = bool(rng.random() < 0.4)
        bls = [p if rng.random() < 0.8 else p[::-1] for p in itertools.combinations(ks, 2)]
        bls = [bls[i] for i in rng.permutation(len(bls))][:int(rng.integers(3, 7))]
        stored_bls = bls + ([(a, a) for a in ks] if autos else [])
        f0, df = rng.uniform(120e6, 165e6), rng.uniform(5e4, 2e5)
        self.dsets = []
        trim = rng.random() < 0.3
        self.gone = []
        for d in range(nd):
            u = vis.make_uvd(rng, ants, [stored_bls[i] for i in rng.permutation(len(stored_bls))], nt, nf, [pols[i] for i in rng.permutation(len(pols))], f0, df,
                             t0=2458000.3 + (int(rng.integers(0, 3)) * 20.0 / 86400 if trim else 0.99726957 * d + 1e-6 * d), dt=20.0, flags=0.05, nsamples=True, units="Jy")
            for a in ks if autos else []:
                r, _ = vis.rows(u, (a, a))
                u.data_array[r] = 3 + rng.random(u.data_array[r].shape)
            if rng.random() < 0.3:  # a fully flagged baseline
                r, _ = vis.rows(u, bls[int(rng.integers(len(bls)))])
                u.flag_array[r] = True
            if nd > 1 and len(bls) > 2 and rng.random() < 0.3:  # a baseline that only the others have
                gone = bls[int(rng.integers(len(bls)))]
                u.select(bls=[p for p in u.get_antpairs() if p not in (gone, gone[::-1])])
                self.gone.append(gone)
            u.pol_convention = "avg"
            self.dsets.append(u)
        o = self.o = {}

        def maybe(p, k, v):
            if rng.random() < p:
                o[k] = v() if callable(v) else v

        maybe(0.3, "dset_labels", lambda: [["even", "odd", "foo"][i] for i in range(nd)])
        allp = list(itertools.product(range(nd), range(nd)))
        maybe(0.5, "dset_pairs", lambda: [allp[i] for i in rng.permutation(len(allp))[:int(rng.integers(1, min(len(allp), 3) + 1))]])
        maybe(0.3, "groupname", "grp")
        maybe(0.3, "psname_ext", "_5")
        spws = [tuple(sorted(rng.choice(nf - 4, 2, replace=False).tolist())) for _ in range(int(rng.integers(1, 3)))]
        spws = [(a, b + 4) for a, b in spws]
        if rng.random() < 0.6:
            o["spw_ranges"] = spws
            maybe(0.4, "n_dlys", lambda: [int(rng.integers(2, b - a + 1)) for a, b in spws])
        maybe(0.5, "pol_pairs", lambda: [(p, p) for p in ([pols[0]] if rng.random() < 0.6 else pols[::-1])])
        if rng.random() < 0.4:
            pool = bls + [(901, 902)] if rng.random() < 0.3 else bls
            some = []
            for _ in range(int(rng.integers(1, 5))):
                p = tuple(pool[int(rng.integers(len(pool)))] for _ in range(2))
                p = tuple(q if rng.random() < 0.7 else q[::-1] for q in p)
                if p not in some:
                    some.append(p)
            if self.gone:  # asked for as first or second, either way round
                g, h = self.gone[0], bls[int(rng.integers(len(bls)))]
                g = g if rng.random() < 0.3 else g[::-1]
                some.append((g, h) if rng.random() < 0.5 else (h, g))
            if all(901 in p[0] or 901 in p[1] for p in some):
                some.append((bls[0], bls[0]))
            o["blpairs"] = some
        if rng.random() < 0.1:  # nothing to do
            o.pop("blpairs", None)
            o["bl_len_range"] = (500.0, 600.0)
        maybe(0.2, "norm", "H^-1")
        maybe(0.5, "taper", lambda: str(rng.choice(TAPERS)))
        maybe(0.3, "exclude_auto_bls", True)
        maybe(0.2, "exclude_cross_bls", True)
        if o.get("exclude_auto_bls") and o.get("exclude_cross_bls"):
            o.pop("exclude_cross_bls")
        maybe(0.4, "exclude_permutations", True if cmdline else False)
        if "bl_len_range" not in o:
            maybe(0.2, "bl_len_range", (10.0, 32.0))
        maybe(0.15, "bl_deg_range", (0.0, 100.0))
        maybe(0.2, "bl_error_tol", 0.5)
        maybe(0.4, "store_window", True if cmdline else lambda: bool(rng.random() < 0.5))
        maybe(0.2, "symmetric_taper", lambda: bool(rng.random() < 0.3))
        maybe(0.2, "return_q", True)
        if nd == 1:
            maybe(0.6, "interleave_times", True)
        maybe(0.4, "rephase_to_dset", lambda: int(rng.integers(2 if o.get("interleave_times") else nd)))
        if trim or nd == 1:
            maybe(1.0 if trim else 0.2, "trim_dset_lsts", True)
        maybe(0.5, "broadcast_dset_flags", True if cmdline else False)
        maybe(0.5, "time_thresh", 0.33)
        maybe(0.3, "xant_flag_thresh", lambda: float(rng.choice([0.5, 1.01])))
        if autos and rng.random() < 0.3:
            o["include_autocorrs"] = True
            maybe(0.4, "include_crosscorrs", False)
        maybe(0.25, "history", "remember this") if not cmdline else None
        self.cosmo = None
        if not cmdline:
            maybe(0.3, "sampling", True)
            if rng.random() < 0.25:
                o["beam"] = scene.beam(rng, pols)
                maybe(0.5, "Jy2mK", True)
                if rng.random() < 0.4:
                    par = [0.7, 0.05, 0.25, float(rng.uniform(60, 75))]
                    self.cosmo = conversions.Cosmo_Conversions(*par)
                    o["cosmo"] = par if rng.random() < 0.4 else self.cosmo
        maybe(0.3, "store_cov", True)
        maybe(0.2, "store_cov_diag", True)
        if o.get("store_cov") or o.get("store_cov_diag"):
            o["cov_model"] = str(rng.choice(["empirical", "dsets"] + (["autos"] if autos else [])))
        if "cov_model" in o and not cmdline and rng.random() < 0.25:
            o.update(cov_model="mine", known_cov=Known(nf, int(rng.integers(2**31))))
        elif autos and "blpairs" in o and rng.random() < 0.4:
            o.update(store_cov_diag=True, cov_model="autos")
            o["blpairs"] = o["blpairs"][:int(rng.integers(1, 3))]
            if all(901 in p[0] or 901 in p[1] for p in o["blpairs"]):
                o["blpairs"].append((bls[0], bls[-1]))
        self.std = None
        if o.get("cov_model") == "dsets" or rng.random() < 0.15:
            self.std = []
            for u in self.dsets:
                s = u.copy()
                s.data_array = rng.uniform(0.5, 1.5, u.data_array.shape) + 0j
                self.std.append(s)
        self.cals = None
        if not cmdline and pols[0] == "xx" and rng.random() < 0.3:
            self.cals = [self.cal(u) for u in self.dsets]
            maybe(0.5, "cal_flag", lambda: bool(rng.random() < 0.5))
        ctx.note(options={k: v for k, v in o.items() if k != "beam"}, nd=nd, nt=nt, nf=nf, pols=pols, cals=self.cals is not None, std=self.std is not None, bls=bls)

    def cal(self, u):
        rng = self.rng
        c = UVCal.new(gain_convention="divide", cal_style="redundant", cal_type="gain", jones_array=np.array([-5, -6]), freq_array=u.freq_array, channel_width=u.channel_width,
                      time_array=np.unique(u.time_array), telescope=u.telescope, integration_time=10.0, empty=True)
        sh = c.gain_array.shape
        c.gain_array = rng.uniform(0.5, 2, sh) * np.exp(1j * rng.uniform(-3, 3, sh))
        c.flag_array = rng.random(sh) < 0.05
        c.gain_scale, c.pol_convention = "Jy", "avg"
        return c

    @property
    def defaults(self):
        d = dict(exclude_permutations=True, broadcast_dset_flags=True, store_window=True) if not self.cmd else dict(
            exclude_permutations=False, broadcast_dset_flags=False, store_window=False)
        return dict(d, **self.o)

    def expected(self, dsets, std):
        """{(group, name): spectra} by doing each step.  Also the datasets as they end up."""
        o = self.defaults
        labels = o.get("dset_labels") or [f"dset{i}" for i in range(self.nd)]
        pairs = o.get("dset_pairs") or (list(itertools.combinations(range(self.nd), 2)) if self.nd > 1 else [(0, 0)])
        if self.cals is not None:
            prop = o.get("cal_flag", True)
            for i, c in enumerate(self.cals):
                for u in [dsets[i]] + ([std[i]] if std else []):
                    from pyuvdata.utils import uvcalibrate
                    uvcalibrate(u, c, inplace=True, prop_flags=prop)
        if o.get("interleave_times"):
            t = np.unique(dsets[0].time_array)
            t = t[:len(t) // 2 * 2]
            parts = [t[::2], t[1::2]]
            dsets = [dsets[0].select(times=p, inplace=False) for p in parts]
            std = None if std is None else [std[0].select(times=p, inplace=False) for p in parts]
            labels, pairs = labels + ["dset1"], [(0, 1)]
        beam = o.get("beam")
        if beam is not None and self.cosmo is not None:
            beam = copy.deepcopy(beam)
            beam.cosmo = self.cosmo
        ds = PSpecData(dsets=dsets, wgts=[None] * len(dsets), labels=list(labels), dsets_std=std, beam=beam)
        if o.get("trim_dset_lsts") and not o.get("interleave_times"):
            ds.trim_dset_lsts()
        if o.get("rephase_to_dset") is not None:
            ds.rephase_to_dset(o["rephase_to_dset"])
        if o["broadcast_dset_flags"]:
            ds.broadcast_dset_flags(spw_ranges=o.get("spw_ranges"), time_thresh=o.get("time_thresh", 0.2))
        if o.get("Jy2mK"):
            ds.Jy_to_mK()
        pps = o.get("pol_pairs")
        if pps is None:
            names = {v: k for k, v in vis.POLNUM.items()}
            pps = [(names[p], names[p]) for p in sorted(set(np.concatenate([u.polarization_array for u in dsets]).tolist()))]
        out = {}
        group = o.get("groupname") or "_".join(labels)
        for i, j in pairs:
            if o.get("blpairs") is not None:
                have = [{b for p in u.get_antpairs() for b in (p, p[::-1])} for u in (dsets[i], dsets[j])]
                bp = [p for p in o["blpairs"] if p[0] in have[0] and p[1] in have[1]]
                b1, b2 = [p[0] for p in bp], [p[1] for p in bp]
            else:
                b1, b2 = utils.calc_blpair_reds(
                    dsets[i], dsets[j], filter_blpairs=True, bl_tol=o.get("bl_error_tol", 1.0),
                    **{k: o[k] for k in ("exclude_auto_bls", "exclude_cross_bls", "exclude_permutations", "Nblps_per_group", "bl_len_range", "bl_deg_range",
                                         "include_autocorrs", "include_crosscorrs", "xant_flag_thresh") if k in o})[:2]
            if len(b1) == 0:
                continue
            kw = {k: o[k] for k in ("spw_ranges", "n_dlys", "norm", "taper", "sampling", "store_window", "symmetric_taper", "return_q", "store_cov", "store_cov_diag", "cov_model", "known_cov",
                                    "history") if k in o}
            out[group, f"{labels[i]}_x_{labels[j]}{o.get('psname_ext') or ''}"] = ds.pspec(b1, b2, (i, j), pps, verbose=False, **kw)
        return out, ds


def unusable(e):
    return isinstance(e, (ValueError, AssertionError)) and any(s in str(e) for s in (
        "band-dependent", "None of the specified", "sufficiently", "empty", "same LST grid"))


def judge(ctx, path, want, before, S, mon):
    psc = PSpecContainer(path, "r", keep_open=False)
    groups = {}
    for g, n in list(want) + list(before):
        groups.setdefault(g, set()).add(n)
    ctx.equal("names", set(psc.groups()), set(groups), "groups")
    for g in groups:
        if g in psc.groups():
            ctx.equal("names", set(psc.spectra(g)), groups[g], f"spectra of {g}")
    for (g, n), u in want.items():
        if g in psc.groups() and n in psc.spectra(g):
            v = psc.get_pspec(g, n)
            same(ctx, mon, state(v), stored(ctx.tmp, u), f"{g}/{n}")
            if "history" in S.o:
                ctx.check(mon, S.o["history"] in v.history, "history note")
    for (g, n), st in before.items():
        if (g, n) not in want and g in psc.groups() and n in psc.spectra(g):
            same(ctx, "kept", state(psc.get_pspec(g, n)), st, f"{g}/{n} was there before")


def existing(ctx, path, want):
    """Sometimes the file is there already, with other spectra."""
    rng = ctx.rng
    before = {}
    if rng.random() < 0.5:
        psc = PSpecContainer(path, "rw", keep_open=False)
        keys = [("other", "a_x_b")]
        if want and rng.random() < 0.7:
            g, n = list(want)[0]
            keys += [(g, "p_x_q"), (g, n)]
        for g, n in keys:
            u = gen.make_uvp(rng, nspw=1, nblp=2, npol=1, ntimes=2, exact=False)
            psc.set_pspec(g, n, u)
            before[g, n] = state(psc.get_pspec(g, n))
    return before


def pipeline(ctx):
    """The function, on objects or files."""
    rng = ctx.rng
    S = Setup(ctx)
    cp = lambda L: None if L is None else [u.copy() for u in L]
    ref = (cp(S.dsets), cp(S.std))
    barg = cgive = None
    if "beam" in S.o and rng.random() < 0.5:
        # a healpix beam, as an object or as a file
        barg = make_uvbeam(rng, "pstokes" if S.dsets[0].polarization_array[0] > 0 else "power", np.linspace(95e6, 205e6, 8), 4)
        if rng.random() < 0.5:
            bf = os.path.join(ctx.tmp, "beam.beamfits")
            try:
                barg.write_beamfits(bf)
                UVBeam().read_beamfits(bf)
                barg = bf
            except NotImplementedError:
                pass
        S.o["beam"] = pspecbeam.PSpecBeamUV(barg if isinstance(barg, str) else barg.copy())
    if S.cals is not None:
        how = int(rng.integers(4))
        if how == 1 and S.nd == 1:
            cgive = S.cals[0]
        elif how >= 2:
            cfs = [os.path.join(ctx.tmp, f"c{i}.calfits") for i in range(S.nd)]
            cgive = []
            for i, (c, f) in enumerate(zip(S.cals, cfs)):
                if rng.random() < 0.7:  # several files
                    t = np.unique(c.time_array)
                    k = int(rng.integers(1, len(t)))
                    fs = [f.replace(".calfits", f".{j}.calfits") for j in range(2)]
                    for p, g in zip((t[:k], t[k:]), fs):
                        c.select(times=p, inplace=False).write_calfits(g)
                    S.cals[i] = UVCal.from_file(fs)
                    cgive.append(fs if rng.random() < 0.3 else f.replace(".calfits", ".*.cal*"))
                else:
                    c.write_calfits(f)
                    S.cals[i] = UVCal.from_file(f)
                    cgive.append([f] if rng.random() < 0.3 else f.replace(".calfits", ".cal*") if rng.random() < 0.5 else f)
            for c, f in zip(S.cals, cgive):
                c.extra_keywords["filename"] = json.dumps(f)
            if S.nd == 1 and rng.random() < 0.3 and isinstance(cgive[0], str):
                cgive = cgive[0]
        ctx.note(cals=cgive if how >= 2 else how, options={k: v for k, v in S.o.items() if k != "beam"}, nd=S.nd)
    try:
        want, rds = S.expected(*ref)
        if "beam" in S.o and barg is not None:
            ctx.event("healpix beams")
        if cgive is not None:
            ctx.event("calibration files or single calibrations")
    except Exception as e:
        if not unusable(e):
            raise
        ctx.event("options the steps refuse")
        ctx.raises("refused", lambda: pspec_run(cp(S.dsets), os.path.join(ctx.tmp, "x.h5"), dsets_std=cp(S.std), cals=S.cals, verbose=False, **copy.deepcopy(S.o)), what="steps refuse")
        return
    path = os.path.join(ctx.tmp, "out.h5")
    before = existing(ctx, path, want)
    over = True
    kw = copy.deepcopy(S.o)
    if barg is not None:
        kw["beam"] = barg
    if rng.random() < 0.4:
        over = bool(rng.random() < 0.5)
        kw["overwrite"] = over
    beam0 = None if "beam" not in kw or barg is not None else gen.snapshot(kw["beam"])
    bkeep = barg.copy() if isinstance(barg, UVBeam) else None
    clash = any(k in before for k in want)
    args = (cp(S.dsets), path)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        run = lambda: pspec_run(*args, dsets_std=cp(S.std), cals=copy.deepcopy(S.cals if cgive is None else cgive), verbose=False, **kw)
        if clash and not over:
            ctx.raises("refused", run, what="existing spectra overwritten")
            judge(ctx, path, {k: v for k, v in want.items() if not any(q in before for q in list(want)[:list(want).index(k) + 1])}, before, S, "spectra")
            return
        ds = run()
    said = any("no output" in str(w.message) for w in rec)
    ctx.equal("nothing" if not want else "spectra", said, not want, "warned of no output")
    ctx.sig("run", tuple(sorted(k for k in S.o)), S.nd, len(want), S.cals is not None)
    if not want:
        ctx.check("nothing", not os.path.exists(path) or bool(before), "a file without spectra")
        if before:
            judge(ctx, path, want, before, S, "spectra")
        return
    judge(ctx, path, want, before, S, "spectra")
    for u, r in zip(ds.dsets, rds.dsets):
        for k in ("data_array", "flag_array", "time_array", "vis_units"):
            a, b = getattr(u, k), getattr(r, k)
            ctx.check("spectra", np.array_equal(a, b, equal_nan=k == "data_array"), f"{k} of the datasets returned")
    if bkeep is not None:
        ctx.check("kept", barg == bkeep, "the beam given was changed")
    if beam0 is not None:
        ctx.check("kept", gen.same_state(gen.snapshot(kw["beam"]), beam0) is None, "the beam given was changed")


def files_of(ctx, u, d, what="d"):
    """Write a dataset as one or several files; what to give the program, and the list of files."""
    rng = ctx.rng
    out = []
    t = np.unique(u.time_array)
    parts = [t]
    if len(t) > 3 and rng.random() < 0.5:
        k = sorted(rng.choice(np.arange(1, len(t)), int(rng.integers(1, 4)), replace=False).tolist())
        parts = np.split(t, k)
    for i, p in enumerate(parts):
        f = os.path.join(ctx.tmp, f"{what}{d}.{i}.uvh5")
        u.select(times=p, inplace=False).write_uvh5(f)
        out.append(f)
    return os.path.join(ctx.tmp, f"{what}{d}.*.uvh5") if len(parts) > 1 or rng.random() < 0.3 else out[0], out


def read(files, pols=None):
    u = UVData()
    u.read(files, polarizations=pols)
    return u


def tilde(rng, pairs):
    s = "~" if rng.random() < 0.6 else " "
    return ("," if s == "~" or rng.random() < 0.5 else ", ").join(s.join(str(x) for x in np.ravel(p)) for p in pairs)


def script(ctx):
    """The pipeline's program, and the function given files."""
    rng = ctx.rng
    S = Setup(ctx, cmdline=True)
    given, lists = zip(*[files_of(ctx, u, d) for d, u in enumerate(S.dsets)])
    sgiven, slists = zip(*[files_of(ctx, u, d, "s") for d, u in enumerate(S.std)]) if S.std else (None, None)
    raw = {f: open(f, "rb").read() for L in lists for f in L}
    path = os.path.join(ctx.tmp, "out.h5")
    argv = list(given) + [path]
    o = dict(S.o)
    if S.std:
        argv += ["--dsets_std"] + list(sgiven)
    over = bool(rng.random() < 0.5)
    if over:
        argv += ["--overwrite"]
    for k, v in o.items():
        if k in ("dset_pairs", "spw_ranges", "pol_pairs", "blpairs"):
            argv += [f"--{k}", tilde(rng, v)]
        elif k == "include_crosscorrs":
            argv += ["--exclude_crosscorrs"]
        elif k == "symmetric_taper":
            argv += [f"--{k}", str(v)]
        elif v is True:
            argv += [f"--{k}"]
        elif isinstance(v, (list, tuple)):
            argv += [f"--{k}"] + [str(x) for x in v]
        else:
            argv += [f"--{k}", str(v)]
    ctx.note(argv=argv)
    try:
        # only what is asked for is read, so only that decides which antennas are flagged too often
        pols = sorted({p for pp in o["pol_pairs"] for p in pp}) if "pol_pairs" in o else None
        want, _ = S.expected([read(list(L), pols) for L in lists], [read(list(L), pols) for L in slists] if S.std else None)
    except Exception as e:
        if not unusable(e):
            raise
        ctx.event("options the steps refuse")
        ctx.check("refused", run_script("pspec_run.py", argv) is not None, "steps refuse")
        return
    before = existing(ctx, path, want)
    err = run_script("pspec_run.py", argv)
    ctx.sig("script", tuple(sorted(o)), S.nd, len(want))
    if any(k in before for k in want) and not over:
        ctx.check("refused", err is not None, "existing spectra overwritten")
        judge(ctx, path, {k: v for k, v in want.items() if not any(q in before for q in list(want)[:list(want).index(k) + 1])}, before, S, "script")
        return
    ctx.must("script", err is None, f"the program failed: {err!r}")
    if not want:
        ctx.check("nothing", not os.path.exists(path) or bool(before), "a file without spectra")
    if want or before:
        judge(ctx, path, want, before, S, "script")
    for f, b in raw.items():
        ctx.check("kept", open(f, "rb").read() == b, f"input {f} changed")


def refuse(ctx):
    rng = ctx.rng
    S = Setup(ctx)
    S.o = {k: v for k, v in S.o.items() if k not in ("interleave_times",)}
    path = os.path.join(ctx.tmp, "out.h5")
    cp = lambda: [u.copy() for u in S.dsets]
    nf = S.dsets[0].Nfreqs
    R = lambda what, dsets=None, **kw: ctx.raises("refused", lambda: pspec_run(cp() if dsets is None else dsets, path, verbose=False, **kw), what=what)
    R("one dataset instead of a list", dsets=S.dsets[0])
    R("label with underscore", dset_labels=["a_b"] * S.nd)
    R("blpairs as a tuple", blpairs=tuple([((1, 2), (1, 2))]))
    R("blpairs of numbers", blpairs=[1, 2])
    R("window outside the band", spw_ranges=[(0, nf + 3)])
    R("window reversed", spw_ranges=[(4, 2)])
    R("window of three numbers", spw_ranges=[(0, 2, 3)])
    R("beam of a wrong kind", beam=3)
    R("dataset pairs not a list", dset_pairs=(0, 0))
    R("wrong number of error sets", dsets_std=cp() + cp()[:1])
    R("extension not a string", psname_ext=3)
    R("calibrations of a wrong kind", cals=[3] * S.nd)
    if S.nd > 1:
        R("interleaving several datasets", interleave_times=True)
    ctx.check("refused", not os.path.exists(path) or not PSpecContainer(path, "r", keep_open=False).groups(), "a refused run stored spectra")
    ctx.sig("refuse", S.nd)


def spectra_file(ctx, path, groups=None, **kw):
    rng = ctx.rng
    psc = PSpecContainer(path, "rw", keep_open=False)
    have = {}
    for g in groups or ["g1", "g2"][:int(rng.integers(1, 3))]:
        for n in ["a", "b_x_c"][:int(rng.integers(1, 3))]:
            u = gen.make_uvp(rng, exact=False, **kw)
            psc.set_pspec(g, n, u)
            have[g, n] = psc.get_pspec(g, n)
    return psc, have


def contents(psc):
    return {(g, n): state(psc.get_pspec(g, n)) for g in psc.groups() for n in psc.spectra(g)}


def bootstrap(ctx):
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    psc, have = spectra_file(ctx, path, nspw=1, nblp=int(rng.integers(2, 5)), npol=1)
    N, seed = int(rng.integers(2, 5)), int(rng.integers(0, 99))
    argv, kw = [path, "--Nsamples", N, "--seed", seed], dict(time_avg=False, Nsamples=N, seed=seed, normal_std=True, robust_std=False, cintervals=None)
    for k in ("time_avg", "normal_std", "robust_std"):
        if rng.random() < 0.5:
            kw[k] = bool(rng.random() < 0.5)
            argv += [f"--{k}", str(kw[k])]
    if rng.random() < 0.5:
        kw["cintervals"] = [16.0, 84.0]
        argv += ["--cintervals", 16, 84]
    keep = bool(rng.random() < 0.5)
    if keep:
        argv += ["--keep_samples"]
    chosen = list(have)
    if rng.random() < 0.5:
        chosen = chosen[:1]
        argv += ["--spectra"] + [f"{g}/{n}" for g, n in chosen]
    groups = None
    if rng.random() < 0.6:
        # the file's objects share no pairs: only one can be asked for by pair
        chosen = chosen[:1]
        u = have[chosen[0]]
        blps = np.unique(u.blpair_array).tolist()
        k = int(rng.integers(1, len(blps) + 1))
        groups = [L for L in (blps[:k], blps[k:]) if L]
        argv += ["--blpair_groups", ("," if rng.random() < 0.5 else ", ").join(" ".join(map(str, L)) for L in groups)]
        if "--spectra" not in argv:
            argv += ["--spectra", "/".join(chosen[0])]
    ctx.note(argv=argv)
    want = {k: state(v) for k, v in have.items()}
    try:
        for g, n in chosen:
            a, b, _ = grouping.bootstrap_resampled_error(have[g, n], blpair_groups=groups, verbose=False, **kw)
            want[g, n + "_avg"] = stored(ctx.tmp, a)
            for i in range(N) if keep else []:
                want[g, f"{n}_bs{i}"] = stored(ctx.tmp, b[i])
    except Exception as e:
        ctx.event("refused by the function")
        ctx.check("refused", run_script("bootstrap_run.py", argv) is not None, f"the function refuses: {e!r}")
        return
    err = run_script("bootstrap_run.py", argv)
    ctx.must("bootstrap", err is None, f"the program failed: {err!r}")
    got = contents(psc)
    ctx.equal("bootstrap", set(got), set(want), "spectra")
    for k in set(got) & set(want):
        same(ctx, "bootstrap", got[k], want[k], "/".join(k))
    err = run_script("bootstrap_run.py", argv)
    ctx.check("refused", err is not None, "existing results overwritten without --overwrite")
    now = contents(psc)
    for k in got:
        same(ctx, "kept", now[k], got[k], "/".join(k) + " after a refused run")
    err = run_script("bootstrap_run.py", argv + ["--overwrite"])
    ctx.check("bootstrap", err is None, f"--overwrite refused: {err!r}")
    now = contents(psc)
    for k in want:
        same(ctx, "bootstrap", now[k], want[k], "/".join(k) + " overwritten")
    ctx.sig("bootstrap", len(have), len(chosen), keep, groups is not None, tuple(kw.items())[3:5])


def names(ctx):
    """psc_merge_spectra: pieces of each name are put together."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    psc = PSpecContainer(path, "rw", keep_open=False)
    want = {}
    sx, se = ("_x_", "_") if rng.random() < 0.6 else ("-by-", ".")
    for g in ["g1", "g2"][:int(rng.integers(1, 3))]:
        for stem in [f"a{sx}b", f"c{sx}d"][:int(rng.integers(1, 3))]:
            u = gen.make_uvp(rng, nspw=3, nblp=3, npol=1, exact=False)
            n = int(rng.integers(1, 4))
            cuts = np.array_split(rng.permutation(np.unique(u.blpair_array)), n)
            for i, c in enumerate(cuts):
                psc.set_pspec(g, f"{stem}{se}{i}", u.select(blpairs=c.tolist(), inplace=False))
            want[g, stem] = u
    argv = [path]
    if (sx, se) != ("_x_", "_"):
        argv += ["--dset_split_str=" + sx, "--ext_split_str=" + se]
    err = run_script("psc_merge_spectra.py", argv)
    ctx.must("merge-names", err is None, f"the program failed: {err!r}")
    psc = PSpecContainer(path, "r", keep_open=False)
    ctx.equal("merge-names", {(g, n) for g in psc.groups() for n in psc.spectra(g)}, set(want), "spectra")
    for k, u in want.items():
        if k[0] in psc.groups() and k[1] in psc.spectra(k[0]):
            gen.compare_records(ctx, "merge-names", gen.records(psc.get_pspec(*k)), gen.records(u), "/".join(k))
    ctx.sig("names", len(want), sx)


def beamfile(ctx, lo, hi):
    """A beam in a file that can be read."""
    from pyuvdata import UVBeam
    b = c21.make_uvbeam(ctx.rng, "power", np.linspace(lo, hi, 8), 8)
    p = os.path.join(ctx.tmp, "b.beamfits")
    b.write_beamfits(p)
    UVBeam().read_beamfits(p)
    return p


def noise_run(ctx):
    """auto_noise_run: errors are those of the function."""
    rng = ctx.rng
    path, afile = os.path.join(ctx.tmp, "c.h5"), os.path.join(ctx.tmp, "autos.uvh5")
    psc = PSpecContainer(path, "rw", keep_open=False)
    u0 = gen.make_uvp(rng, beam=True, pols=[(-5, -5), (-6, -6)][:int(rng.integers(1, 3))], flags=False, stats=bool(rng.random() < 0.3), min_nf=5, window=False, cov=False,
                      nspw=int(rng.integers(1, 3)), wrap_lst=False)
    a, _ = c17.autos_for(rng, u0, u0._hv_antpos, bool(rng.random() < 0.5))
    a.check()
    a.write_uvh5(afile)
    orig = {}
    for g in ["g1", "g2"][:int(rng.integers(1, 3))]:
        for n in ["a", "b_x_c"][:int(rng.integers(1, 3))]:
            u = copy.deepcopy(u0)
            for s in u.data_array:
                u.data_array[s] = u.data_array[s] * float(rng.uniform(1, 3))
            psc.set_pspec(g, n, u)
            orig[g, n] = psc.get_pspec(g, n)
    beam = beamfile(ctx, 105e6, 200e6)
    argv, err, chosen = [path, afile, beam], "P_N", list(orig)
    if rng.random() < 0.7:
        err = [["P_N"], ["P_SN"], ["P_N", "P_SN"]][int(rng.integers(3))]
        argv += ["--err_type"] + err
    if rng.random() < 0.4:
        gs = sorted({k[0] for k in orig})[:1]
        argv += ["--groups"] + gs
        chosen = [k for k in chosen if k[0] in gs]
    if rng.random() < 0.3:
        argv += ["--spectra", "a"]
        chosen = [k for k in chosen if k[1] == "a"]
    ctx.note(argv=argv)
    T = utils.uvd_to_Tsys(read([afile]), beam=beam)
    want = {k: state(v) for k, v in orig.items()}
    for k in chosen:
        u = copy.deepcopy(orig[k])
        utils.uvp_noise_error(u, T, err_type=err)
        want[k] = stored(ctx.tmp, u)
    e = run_script("auto_noise_run.py", argv)
    ctx.must("noise", e is None, f"the program failed: {e!r}")
    got = contents(PSpecContainer(path, "r", keep_open=False))
    ctx.equal("noise", set(got), set(want), "spectra")
    for k in set(got) & set(want):
        same(ctx, "noise", got[k], want[k], "/".join(k))
    ctx.sig("noise", len(orig), len(chosen), str(err))


def merge_files(ctx):
    """The per-baseline files of a set are put together, in batches of any size."""
    rng = ctx.rng
    ns = ["time_avg", "all"][:int(rng.integers(1, 3))]
    us = {n: gen.make_uvp(rng, nspw=int(rng.integers(1, 3)), nblp=int(rng.integers(2, 6)), npol=int(rng.integers(1, 3)), exact=False) for n in ns[:1]}
    u = us[ns[0]]
    for n in ns[1:]:
        v = copy.deepcopy(u)
        for s in v.data_array:
            v.data_array[s] = v.data_array[s] * 2
        us[n] = v
    blps = [int(b) for b in rng.permutation(np.unique(u.blpair_array))]
    ex = {}
    for i, b in enumerate(blps):
        f = os.path.join(ctx.tmp, f"blp.{i:02d}.h5")
        psc = PSpecContainer(f, "rw", keep_open=False)
        for n in ns + ["unrelated"] * int(rng.random() < 0.2):
            psc.set_pspec("stokes", n, us.get(n, u).select(blpairs=[b], inplace=False))
        with h5py.File(f, "a") as h:
            hd = h.require_group("header")
            ex.setdefault("number", {})[u.blpair_to_antnums(b)] = float(i)
            ex.setdefault("text", {})[u.blpair_to_antnums(b)] = f"t{i}"
            hd.attrs["number"], hd.attrs["text"] = float(i), f"t{i}"
    out = Path(ctx.tmp) / "merged"
    batch = None if rng.random() < 0.3 else int(rng.integers(1, len(blps) + 2))
    extras = None if rng.random() < 0.4 else ["number", "text"][:int(rng.integers(1, 3))]
    kw = dict(pattern=os.path.join(ctx.tmp, "blp.*.h5"), group="stokes", names=list(ns), outpath=out, progress=False, extras=extras, batch_size=batch)
    ctx.note(nblp=len(blps), batch=batch, names=ns, extras=extras)
    old = {f: open(f, "rb").read() for f in map(str, Path(ctx.tmp).glob("blp.*"))}
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if rng.random() < 0.5:
            cli.fast_merge_baselines(**kw)
        else:
            from typer.testing import CliRunner
            argv = ["fast-merge-baselines", "--pattern", kw["pattern"], "--group", "stokes", "--outpath", str(out), "--no-progress"]
            for n in ns:
                argv += ["--names", n]
            for n in extras or []:
                argv += ["--extras", n]
            if batch is not None:
                argv += ["--batch-size", str(batch)]
            r = CliRunner().invoke(cli.app, argv)
            ctx.must("merge-files", r.exit_code == 0, lambda: f"failed: {r.exception!r} {r.output}")
    psc = PSpecContainer(str(out) + ".pspec.h5", "r", keep_open=False)
    ctx.equal("merge-files", (psc.groups(), set(psc.spectra("stokes"))), (["stokes"], set(ns)), "spectra")
    for n in ns:
        gen.compare_records(ctx, "merge-files", gen.records(psc.get_pspec("stokes", n)), gen.records(us[n]), n)
    for e in extras or []:
        with open(f"{out}.{e}.pkl", "rb") as f:
            got = pickle.load(f)
        ctx.equal("extras", got, ex[e], f"extra {e}")
    for f, b in old.items():
        ctx.check("kept", open(f, "rb").read() == b, "input changed")
    ctx.sig("files", len(blps), batch, len(ns), extras is None)


CASES = [Case("pipeline", pipeline, 50, 700), Case("script", script, 40, 400), Case("refuse", refuse, 4, 30), Case("bootstrap", bootstrap, 12, 120), Case("names", names, 10, 100), Case("noise", noise_run, 6, 60),
         Case("merge_files", merge_files, 14, 140)]
