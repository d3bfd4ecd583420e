"""C07: power-spectrum files give back what was written."""
import copy
import os

import h5py
import numpy as np

from hera_pspec import uvpspec
from hv import gen, sel
from hv.core import Case

ID = "C07"
RULE = ("random valid UVPSpec objects (1-3 windows, ragged/shuffled rows, optional covariance, "
        "statistics, binned or exact windows, folded, r_params, beam, cosmology) are written and read "
        "back whole, in part, and metadata-only, with files, groups and repeated cycles; distinct = "
        "distinct combination of optional content and selection kinds")
REQUIRE = {"round-trip-content": 20, "partial-read-content": 20, "metadata-only-read": 5,
           "refused-write-leaves-file": 3, "round-trip-attributes": 20}
ASSUMPTIONS = ["stored values are compared exactly (rtol 1e-12); the in-memory data model of "
               "UVPSpec (data_array[spw][row, delay, pol] ...) is the documented one"]

ATTRS = ["Ntimes", "Ntpairs", "Nbltpairs", "Nblpairs", "Nspws", "Nspwdlys", "Nspwfreqs", "Ndlys",
         "Npols", "Nfreqs", "history", "r_params", "cov_model", "exact_windows", "Nbls", "weighting",
         "vis_units", "norm", "norm_units", "taper", "folded", "spw_array", "freq_array",
         "dly_array", "polpair_array", "lst_1_array", "lst_2_array", "lst_avg_array",
         "time_1_array", "time_2_array", "time_avg_array", "channel_width", "blpair_array", "OmegaP",
         "OmegaPP", "beam_freqs", "beamfile", "bl_vecs", "bl_array", "telescope_location", "scalar_array",
         "labels", "label_1_array", "label_2_array", "spw_freq_array", "spw_dly_array"]


def rich_uvp(rng, **kw):
    if "r_params" not in kw and rng.random() < 0.3:
        kw["r_params"] = None
    rp = kw.pop("r_params", "")
    exact = kw.pop("exact", rng.random() < 0.2)
    u = gen.make_uvp(rng, exact=exact, flags=rng.random() < 0.3, odd_times=True, **kw)
    if rp is None:
        gen.rand_r_params(rng, u)
    if rng.random() < 0.2:
        u.cov_model = "empirical"
    if rng.random() < 0.15 and not u.exact_windows:
        u.fold_spectra()
    u.history = "h" * int(rng.integers(0, 50)) + "\nline \u00b5" if rng.random() < 0.2 else "history"
    return u


def content_sig(u, *extra):
    return (u.Nspws, hasattr(u, "cov_array_real"), hasattr(u, "stats_array"), u.exact_windows,
            hasattr(u, "window_function_array"), u.folded, u.r_params != "",
            hasattr(u, "OmegaP")) + extra


def attr_compare(ctx, mon, a, b, skip=()):
    for at in ATTRS:
        if at in skip:
            continue
        if hasattr(a, at) != hasattr(b, at):
            ctx.check(mon, False, f"attribute {at} lost or invented")
            continue
        if hasattr(a, at):
            x, y = getattr(a, at), getattr(b, at)
            if isinstance(x, np.ndarray):
                ok = isinstance(y, np.ndarray) and x.shape == y.shape and (
                    np.array_equal(x, y) if x.dtype.kind in "iub" else
                    np.array_equal(x.astype(str), y.astype(str)) if x.dtype.kind in "US" else
                    np.allclose(x, y, rtol=1e-13, atol=0, equal_nan=True))
            else:
                ok = x == y
            ctx.check(mon, ok, lambda: f"attribute {at}: {x!r:.200} became {y!r:.200}")
    if hasattr(a, "cosmo"):
        ctx.check(mon, hasattr(b, "cosmo") and a.cosmo.get_params() == b.cosmo.get_params(),
                  "cosmology changed")
    ctx.check(mon, a.get_r_params() == b.get_r_params(), "r_params dictionary changed")


def round_trip(ctx):
    rng = ctx.rng
    u = rich_uvp(rng)
    ctx.note(uvp=gen.describe(u))
    before = gen.snapshot(u)
    want = gen.records(u)
    p = os.path.join(ctx.tmp, "a.h5")
    if rng.random() < 0.5:
        u.write_hdf5(p, run_check=bool(rng.random() < 0.5))
        v = uvpspec.UVPSpec()
        v.read_hdf5(p)
    else:
        with h5py.File(p, "w") as f:
            u.write_to_group(f.create_group("x").create_group("y"))
        v = uvpspec.UVPSpec()
        with h5py.File(p, "r") as f:
            v.read_from_group(f["x/y"])
    ctx.check("write-does-not-modify", gen.same_state(gen.snapshot(u), before) is None,
              lambda: gen.same_state(gen.snapshot(u), before))
    gen.compare_records(ctx, "round-trip-content", gen.records(v), copy.deepcopy(want), "read back")
    attr_compare(ctx, "round-trip-attributes", u, v)
    ctx.check("read-object-is-consistent", not gen.structure_errors(v),
              lambda: str(gen.structure_errors(v)))
    if not (u.folded or any(np.isnan(u.data_array[s]).any() for s in range(u.Nspws))):
        ctx.check("equality-operator", u == v and v == u, "object != its own round trip")
        w = copy.deepcopy(v)
        w.data_array[0][0, 0, 0] += 1.0
        ctx.check("equality-operator", not (u == w), "different data compare equal")
    # a second cycle, into the same object, over the same file
    if rng.random() < 0.4:
        v.write_hdf5(p, overwrite=True)
        w = rich_uvp(rng)  # reading must replace all previous content
        w.read_hdf5(p)
        gen.compare_records(ctx, "round-trip-content", gen.records(w), want, "second cycle")
        attr_compare(ctx, "round-trip-attributes", u, w)
        ctx.event("second-cycle")
    ctx.sig(*content_sig(u))
    ctx.sample(uvp=gen.describe(u))


def partial_read(ctx):
    rng = ctx.rng
    u = rich_uvp(rng, nblp=int(rng.integers(2, 6)))
    p = os.path.join(ctx.tmp, "a.h5")
    u.write_hdf5(p)
    full = gen.records(u)
    for _ in range(6):
        kw, sp, rows, pps, kinds = sel.rand_selection(rng, u, default_only_pairs=False)
        ctx.note(uvp=gen.describe(u), selection=kw)
        if not rows.any():
            ctx.raises("empty-selection-refused", lambda: uvpspec.UVPSpec().read_hdf5(p, **kw),
                       what="selection matching nothing")
            continue
        v = uvpspec.UVPSpec()
        v.read_hdf5(p, **kw)
        want = sel.filtered(full, u, sp, rows, pps)
        gen.compare_records(ctx, "partial-read-content", gen.records(v), want, f"read {kw}")
        ctx.check("read-object-is-consistent", not gen.structure_errors(v),
                  lambda: str(gen.structure_errors(v)))
        if "spws" not in kw:
            okw = dict(kw)
            okw.setdefault("only_pairs_in_bls", False)
            w = u.select(inplace=False, **okw)
            gen.compare_records(ctx, "partial-read-equals-select", gen.records(w), gen.records(v))
        # positive-delay accessors of what was read
        k = next(iter(want))
        key = (0, int(v.blpair_array[0]), int(v.polpair_array[0]))
        ctx.check("accessor-matches-delays",
                  v.get_data(key).shape[1] == len(v.get_dlys(0)), "get_data vs get_dlys length")
        m = uvpspec.UVPSpec()
        m.read_hdf5(p, just_meta=True, **kw)
        ctx.check("metadata-only-read", not hasattr(m, "data_array") and not hasattr(m, "wgt_array"),
                  "data present")
        for at in ["blpair_array", "time_1_array", "time_2_array", "time_avg_array", "lst_1_array",
                   "lst_2_array", "lst_avg_array", "polpair_array", "freq_array", "dly_array",
                   "spw_array", "spw_freq_array", "spw_dly_array", "bl_array", "bl_vecs",
                   "scalar_array"]:
            ctx.check("metadata-only-read", np.array_equal(getattr(m, at), getattr(v, at)),
                      lambda: f"{at} differs between metadata-only and full read")
        for at in ["Nspws", "Npols", "Nbltpairs", "Nblpairs", "Ntimes", "Ntpairs", "Nbls"]:
            ctx.equal("metadata-only-read", getattr(m, at), getattr(v, at), at)
        attr_compare(ctx, "metadata-only-read", v, m)
        ctx.sig(*content_sig(u, tuple(kinds)))
    ctx.sample(uvp=gen.describe(u), selection=kw)


def overwrite(ctx):
    rng = ctx.rng
    u, v = rich_uvp(rng), rich_uvp(rng)
    p = os.path.join(ctx.tmp, "a.h5")
    u.write_hdf5(p)
    raw = open(p, "rb").read()
    ctx.note(uvp=gen.describe(u))
    ctx.raises("refused-write-leaves-file", lambda: v.write_hdf5(p), OSError, "existing file")
    ctx.check("refused-write-leaves-file", open(p, "rb").read() == raw, "file changed")
    # an object that fails its own validity check must not destroy the old file
    bad = copy.deepcopy(v)
    victim = str(rng.choice(["data_array", "polpair_array", "nsample_array", "labels"]))
    if rng.random() < 0.5:
        delattr(bad, victim)
    else:
        setattr(bad, victim, "junk")
    ctx.raises("invalid-object-refused", lambda: bad.write_hdf5(p, overwrite=True),
               what=f"invalid {victim}")
    w = uvpspec.UVPSpec()
    try:
        w.read_hdf5(p)
        ok = gen.same_state(gen.records(w), gen.records(u), rtol=1e-13) is None
    except Exception as e:
        ok = False
    ctx.check("refused-write-leaves-file", ok, f"refused overwrite (bad {victim}) destroyed the file")
    v.write_hdf5(p, overwrite=True)
    w = uvpspec.UVPSpec()
    w.read_hdf5(p)
    gen.compare_records(ctx, "round-trip-content", gen.records(w), gen.records(v), "overwritten file")
    attr_compare(ctx, "round-trip-attributes", v, w)
    # not a power spectrum
    q = os.path.join(ctx.tmp, "b.h5")
    with h5py.File(q, "w") as f:
        f.attrs["x"] = 1
    ctx.raises("foreign-file-refused", lambda: uvpspec.UVPSpec().read_hdf5(q), what="foreign file")
    ctx.sig(victim)


CASES = [Case("round_trip", round_trip, 160, 2000), Case("partial_read", partial_read, 160, 1500),
         Case("overwrite", overwrite, 16, 150)]
