"""C10: combining power spectrum objects is lossless, order-free and refuses conflicts."""
import copy
import itertools
import os

import numpy as np

from hera_pspec import uvpspec
from hv import gen
from hv.core import Case

ID = "C10"
RULE = ("random objects are cut into 2-5 pieces along spectral windows, baseline-pair-times or polarisations, "
        "the pieces' rows and polarisations are re-ordered, and the pieces (or files of them) are put back "
        "together in random order by every combining entry point; conflicting pieces must be refused; "
        "distinct = distinct axis x piece count x optional-content combination")
REQUIRE = {"combined-content": 100, "conflict-refused": 60, "inputs-unchanged": 60, "combined-metadata": 60}


def split(rng, u, axis):
    """Cut u into pieces along one axis."""
    if axis == "spw":
        ids = list(range(u.Nspws))
    elif axis == "pol":
        ids = [int(p) for p in u.polpair_array]
    elif axis == "blp":
        ids = list(dict.fromkeys(u.blpair_array.tolist()))
    else:
        ids = np.unique(u.time_avg_array).tolist()
    if len(ids) < 2:
        return None
    n = int(rng.integers(2, min(5, len(ids)) + 1))
    lab = np.concatenate([np.arange(n), rng.integers(0, n, len(ids) - n)])
    rng.shuffle(lab)
    kw = {"spw": "spws", "pol": "polpairs", "blp": "blpairs", "time": "times"}[axis]
    parts = [u.select(**{kw: [i for i, l in zip(ids, lab) if l == m]}, inplace=False) for m in range(n)]
    return parts


def shuffle_piece(rng, p, rows=True, pols=True):
    r = rng.permutation(p.Nbltpairs) if rows and rng.random() < 0.6 else None
    q = rng.permutation(p.Npols) if pols and rng.random() < 0.4 else None
    return gen.permute(gen.relabel(rng, p), r, q)


def make(rng, axis, **kw):
    return gen.make_uvp(
        rng, odd_times=True, nspw=int(rng.integers(2, 4)) if axis == "spw" else None,
        nblp=int(rng.integers(2, 5)) if axis == "blp" else None,
        ntimes=int(rng.integers(2, 5)) if axis == "time" else None,
        npol=int(rng.integers(2, 4)) if axis == "pol" else None,
        beam="same" if axis == "pol" and rng.random() < 0.5 else (False if axis == "pol" else None),
        spw_sorted=bool(rng.random() < 0.6), exact=bool(rng.random() < 0.25), **kw)


def lossless(ctx):
    rng = ctx.rng
    axis = str(rng.choice(["spw", "blp", "time", "pol"]))
    u = make(rng, axis)
    if rng.random() < 0.3:
        u.symmetric_taper = False
    fold = rng.random() < 0.2 and not u.exact_windows
    if fold:
        u.fold_spectra()
    parts = split(rng, u, axis)
    if parts is None:
        return
    ctx.note(uvp=gen.describe(u), axis=axis, n=len(parts), folded=fold)
    recs = gen.getter_records if fold else gen.records
    want = recs(u)
    parts = [shuffle_piece(rng, p) for p in parts]
    parts = [parts[i] for i in rng.permutation(len(parts))]
    before = [gen.snapshot(p) for p in parts]
    how = rng.choice(["combine", "recursive", "add", "files"])
    if how == "combine":
        c = uvpspec.combine_uvpspec(parts, merge_history=bool(rng.random() < 0.5), verbose=False)
    elif how == "recursive":
        c = uvpspec.recursive_combine_uvpspec(parts)
    elif how == "add":
        c = parts[0]
        for p in parts[1:]:
            c = c + p
    else:
        fs = []
        for i, p in enumerate(parts):
            fs.append(os.path.join(ctx.tmp, f"p{i}.h5"))
            p.write_hdf5(fs[-1])
        c = uvpspec.combine_uvpspec(fs, verbose=False)
    ctx.sig(axis, len(parts), str(how), fold, u.exact_windows, hasattr(u, "cov_array_real"),
            hasattr(u, "stats_array"), hasattr(u, "window_function_array"), hasattr(u, "OmegaP"))
    gen.compare_records(ctx, "combined-content", recs(c), want, f"{axis} by {how}")
    ctx.check("combined-structure", not gen.structure_errors(c, data=not fold),
              lambda: str(gen.structure_errors(c, data=not fold)))
    ctx.equal("combined-metadata", gen.meta(c), gen.meta(u), "metadata")
    ctx.equal("combined-metadata", list(map(str, c.labels)), sorted({str(x) for q in parts for x in q.labels}), "labels")
    ctx.equal("combined-metadata", gen.beam_columns(c), gen.beam_columns(u), "beam integrals")
    ctx.equal("combined-metadata", (c.Nspws, c.Nbltpairs, c.Npols, c.Nblpairs, c.Ntpairs, c.Nfreqs, c.Ndlys, c.Nbls),
              (u.Nspws, u.Nbltpairs, u.Npols, u.Nblpairs, u.Ntpairs, u.Nfreqs, u.Ndlys, u.Nbls), "counters")
    for p, b in zip(parts, before):
        d = gen.same_state(gen.snapshot(p), b)
        ctx.check("inputs-unchanged", d is None, lambda: f"input changed: {d}")
    # any other order and grouping gives the same object
    order = rng.permutation(len(parts))
    c2 = uvpspec.combine_uvpspec([parts[i] for i in order], verbose=False)
    gen.compare_records(ctx, "order-independent", recs(c2), want, f"{axis} order {order}")
    # what happens to the result later does not reach the inputs
    if not fold and not u.exact_windows:
        c2.fold_spectra()
    c2.convert_to_deltasq()
    for st in list(getattr(c2, "stats_array", {})):
        c2.set_stats_slice(st, 0, 1e9, above=True, val=7.0)
    for p, b in zip(parts, before):
        d = gen.same_state(gen.snapshot(p), b)
        ctx.check("result-is-separate", d is None, lambda: f"input changed with the result: {d}")
    # what was combined reads back
    f = os.path.join(ctx.tmp, "c.h5")
    c.write_hdf5(f)
    r = uvpspec.UVPSpec()
    r.read_hdf5(f)
    gen.compare_records(ctx, "combined-storable", recs(r), want, "after writing")


def optional(ctx):
    """Optional content survives exactly when every input has it."""
    rng = ctx.rng
    axis = str(rng.choice(["spw", "blp", "time", "pol"]))
    u = make(rng, axis, cov=True, stats=True, window=True)
    parts = split(rng, u, axis)
    if parts is None:
        return
    k = int(rng.integers(len(parts)))
    what = str(rng.choice(["cov", "stats", "onestat", "window", "covmodel"]))
    if what == "window" and u.exact_windows:
        return
    p = parts[k]
    if what == "cov":
        del p.cov_array_real, p.cov_array_imag
    elif what == "stats":
        del p.stats_array
    elif what == "onestat":
        del p.stats_array["P_N"]
    elif what == "window":
        del p.window_function_array
    else:
        p.cov_model = "empirical"
    ctx.note(axis=axis, what=what)
    c = uvpspec.combine_uvpspec(parts, verbose=False)
    want = gen.records(u)
    drop = {"cov": ["cov_real", "cov_imag"], "covmodel": ["cov_real", "cov_imag"],
            "stats": ["stat:P_N", "stat:noise_err", "stat:third_err"], "onestat": ["stat:P_N"], "window": ["window"]}[what]
    for r in want.values():
        for d in drop:
            r.pop(d, None)
    gen.compare_records(ctx, "combined-content", gen.records(c), want, f"optional {what} along {axis}")
    ctx.sig("optional", axis, what)


def conflict(ctx):
    rng = ctx.rng
    axis = str(rng.choice(["spw", "blp", "time", "pol"]))
    u = make(rng, axis, ragged=False)
    parts = split(rng, u, axis)
    if parts is None:
        return
    kind = str(rng.choice(["same", "overlap", "two-axes", "meta", "meta", "rparams", "scalar"]))
    ctx.note(axis=axis, kind=kind, uvp=gen.describe(u))
    if kind == "same":
        bad = [u, copy.deepcopy(u)]
    elif kind == "overlap":
        # a piece and the whole share spectra
        bad = [u, parts[int(rng.integers(len(parts)))]]
        if len(parts) > 2 and rng.random() < 0.5:
            bad = [parts[0], uvpspec.combine_uvpspec(parts[:2], verbose=False)]
    elif kind == "two-axes":
        other = {"spw": "pol", "pol": "blp", "blp": "spw", "time": "pol"}[axis]
        sub = split(rng, parts[1], other)
        sub0 = split(rng, parts[0], other)
        if sub is None:
            return
        sel = {"spw": lambda q: set(q.get_spw_ranges()), "pol": lambda q: set(q.polpair_array.tolist()),
               "blp": lambda q: set(q.blpair_array.tolist())}[other]
        pick = [q for q in sub0 if not sel(q) & sel(sub[0])]
        if not pick:
            return
        bad = [pick[0], sub[0]]
    elif kind == "meta":
        p = parts[-1] = copy.deepcopy(parts[-1])
        what = str(rng.choice(["weighting", "taper", "norm", "vis_units", "norm_units", "cosmo", "folded",
                               "telescope_location", "OmegaP", "beam_freqs"]))
        if what in ("OmegaP", "beam_freqs") and not hasattr(p, what):
            what = "norm"
        if what == "cosmo":
            from hera_pspec.conversions import Cosmo_Conversions
            p.cosmo = Cosmo_Conversions(Om_M=0.25)
        elif what == "folded":
            p.folded = True
        elif what in ("telescope_location", "OmegaP", "beam_freqs"):
            setattr(p, what, getattr(p, what) * 1.01)
        else:
            setattr(p, what, "other")
        ctx.note(what=what)
        bad = parts
        kind += ":" + what
    elif kind == "rparams":
        if axis == "pol":
            return
        keys = [f"{lb}" for lb in u.labels]
        parts = [copy.deepcopy(p) for p in parts]
        for i, p in enumerate(parts):
            p.r_params = "" if i else _rp(u, 5.0)
        bad = parts
    else:
        if axis not in ("blp", "time"):
            return
        parts[-1] = copy.deepcopy(parts[-1])
        parts[-1].scalar_array = parts[-1].scalar_array * 1.5
        bad = parts
    before = [gen.snapshot(p) for p in bad]
    bad_o = [bad[i] for i in rng.permutation(len(bad))]
    ctx.raises("conflict-refused", lambda: uvpspec.combine_uvpspec(bad_o, verbose=False), what=kind)
    if len(bad) == 2:
        ctx.raises("conflict-refused", lambda: bad[0] + bad[1], what=kind)
    for p, b in zip(bad, before):
        ctx.check("inputs-unchanged", gen.same_state(gen.snapshot(p), b) is None, "input changed")
    ctx.sig("conflict", axis, kind)


def _rp(u, hw):
    from hera_pspec import uvpspec_utils
    l = str(u.labels[0])
    blp = u.get_blpairs()[0]
    return uvpspec_utils.compress_r_params({
        (l, blp[0][0], blp[0][1], "xx"): {"filter_centers": [0.0], "filter_half_widths": [hw], "filter_factors": [1e-9]}})


def rparams(ctx):
    """Weighting parameters of all inputs are kept; contradictory ones refused."""
    from hera_pspec import uvpspec_utils
    rng = ctx.rng
    axis = str(rng.choice(["blp", "time"]))
    u = gen.make_uvp(rng, nblp=int(rng.integers(3, 6)), ntimes=int(rng.integers(2, 5)), npol=int(rng.integers(1, 3)),
                     antenna=gen.antpos(rng, 4), ragged=False)
    full = gen.rand_r_params(rng, u)
    ctx.equal("r-params", u.get_r_params(), full, "r_params round trip")
    if axis == "blp":
        parts = [u.select(blpairs=[b], inplace=False) for b in u.get_blpairs()]
    else:
        parts = [u.select(times=[t], inplace=False) for t in np.unique(u.time_avg_array)]
    if len(parts) < 2:
        return
    ctx.note(uvp=gen.describe(u), axis=axis, parameters=full)
    parts = [parts[i] for i in rng.permutation(len(parts))]
    c = uvpspec.combine_uvpspec(parts, verbose=False)
    ctx.equal("r-params", c.get_r_params(), full, "r_params after combining")
    gen.compare_records(ctx, "combined-content", gen.records(c), gen.records(u), "with r_params")
    i, j = rng.choice(len(parts), 2, replace=False)
    shared = sorted(set(parts[i].get_r_params()) & set(parts[j].get_r_params()))
    if shared:
        bad = copy.deepcopy(parts)
        rp = bad[j].get_r_params()
        rp[shared[int(rng.integers(len(shared)))]] = {"filter_centers": [0.5], "filter_half_widths": [77.0], "filter_factors": [1e-9]}
        bad[j].r_params = uvpspec_utils.compress_r_params(rp)
        ctx.raises("conflict-refused", lambda: uvpspec.combine_uvpspec(bad, verbose=False),
                   what="contradictory r_params")
    ctx.sig("rparams", axis, len(parts), len(full), len(shared))


CASES = [Case("lossless", lossless, 320, 3000), Case("optional", optional, 120, 1000), Case("conflict", conflict, 160, 1500),
         Case("rparams", rparams, 40, 300)]
