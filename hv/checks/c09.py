"""C09: selections and keyed access return exactly the matching spectra."""
import copy

import numpy as np

from hv import gen, sel
from hv.core import Case

ID = "C09"
RULE = ("random UVPSpec objects and random selections (windows by index or range, baselines with either "
        "pairing rule, baseline pairs, times or LSTs, polarization pairs, in every spelling), alone and in "
        "sequences, in place and copying; every key spelling of every accessor; distinct = distinct "
        "combination of optional content and selection kinds")
REQUIRE = {"select-content": 40, "accessor-content": 100, "select-copy-leaves-original": 20,
           "index-lookup": 50, "stats-set-get": 20, "common-selection": 10}
ASSUMPTIONS = ["rows are told apart by (window, baseline pair, time 1, time 2, polarization pair)"]


def mk(rng, **kw):
    u = gen.make_uvp(rng, exact=kw.pop("exact", rng.random() < 0.15), flags=rng.random() < 0.4,
                     wrap_lst=rng.random() < 0.2, odd_times=True, **kw)
    if rng.random() < 0.2 and not u.exact_windows:
        u.fold_spectra()
    return u


def counters(ctx, v):
    ctx.check("selected-object-is-consistent", not gen.structure_errors(v),
              lambda: str(gen.structure_errors(v)))
    ctx.equal("selected-object-is-consistent", (v.Ntimes, v.Ntpairs),
              (len(set(zip(v.time_1_array.tolist(), v.time_2_array.tolist()))),) * 2, "Ntimes")
    ctx.equal("selected-object-is-consistent", v.Nfreqs, len(np.unique(v.freq_array)), "Nfreqs")
    ctx.equal("selected-object-is-consistent", v.Ndlys, len(np.unique(v.dly_array)), "Ndlys")
    need = {int(b) // 10**6 for b in v.blpair_array} | {int(b) % 10**6 for b in v.blpair_array}
    ctx.equal("selected-object-is-consistent", set(v.bl_array.tolist()), need, "bl_array")
    if hasattr(v, "OmegaP"):
        ctx.equal("selected-object-is-consistent", v.OmegaP.shape[1], v.Npols, "OmegaP pols")


def select(ctx):
    rng = ctx.rng
    u = mk(rng, nblp=int(rng.integers(2, 6)))
    full = gen.records(u)
    rp = gen.rand_r_params(rng, u) if rng.random() < 0.4 else {}
    before = gen.snapshot(u)
    omega = {int(p): u.OmegaP[:, i].copy() for i, p in enumerate(u.polpair_array)} if hasattr(
        u, "OmegaP") else None
    omega2 = {int(p): u.OmegaPP[:, i].copy() for i, p in enumerate(u.polpair_array)} if omega else None
    for _ in range(6):
        kw, sp, rows, pps, kinds = sel.rand_selection(rng, u, default_only_pairs=True)
        ctx.note(uvp=gen.describe(u), selection=kw)
        if not rows.any():
            ctx.raises("empty-selection-refused", lambda: u.select(inplace=False, **kw),
                       what=f"selection matching nothing {kw}")
            continue
        v = u.select(inplace=False, **kw)
        d = gen.same_state(gen.snapshot(u), before)
        ctx.check("select-copy-leaves-original", d is None, d or "")
        want = sel.filtered(full, u, sp, rows, pps)
        gen.compare_records(ctx, "select-content", gen.records(v), want, f"select {kw}")
        counters(ctx, v)
        # rows, windows and polarizations keep their relative order
        rk = list(zip(v.blpair_array.tolist(), v.time_1_array.tolist(), v.time_2_array.tolist()))
        wk = [t for t, m in zip(zip(u.blpair_array.tolist(), u.time_1_array.tolist(),
                                    u.time_2_array.tolist()), rows) if m]
        ctx.equal("select-keeps-order", rk, wk, "row order")
        ctx.equal("select-keeps-order", v.polpair_array.tolist(),
                  [p for p in u.polpair_array.tolist() if p in pps], "pol order")
        if omega:
            for i, p in enumerate(v.polpair_array):
                ctx.check("select-beam", np.allclose(v.OmegaP[:, i], omega[int(p)]), "OmegaP")
                ctx.check("select-beam", np.allclose(v.OmegaPP[:, i], omega2[int(p)]), "OmegaPP")
        ctx.equal("select-parameters", v.get_r_params(), gen.kept_r_params(rp, v), "weighting parameters")
        w = copy.deepcopy(u)
        r = w.select(inplace=True, **kw)
        ctx.check("select-inplace-equals-copy",
                  gen.same_state(gen.snapshot(w), gen.snapshot(v)) is None,
                  lambda: gen.same_state(gen.snapshot(w), gen.snapshot(v)))
        # copies must not share storage with the original
        v.data_array[0][:] = -99.0
        v.time_avg_array[:] = 0
        v.scalar_array[:] = -1
        v.wgt_array[0][:] = -5
        d = gen.same_state(gen.snapshot(u), before)
        ctx.check("select-copy-leaves-original", d is None, lambda: "aliasing: " + d)
        ctx.sig(tuple(kinds), u.folded, hasattr(u, "cov_array_real"), hasattr(u, "stats_array"),
                u.exact_windows)
    ctx.sample(uvp=gen.describe(u), selection=kw)


def sequence(ctx):
    """A history of in-place selections equals the intersection of their meanings."""
    rng = ctx.rng
    u = mk(rng, nblp=int(rng.integers(3, 7)), ntimes=int(rng.integers(2, 6)))
    want = gen.records(u)
    hist = []
    for _ in range(int(rng.integers(2, 5))):
        kw, sp, rows, pps, kinds = sel.rand_selection(rng, u, default_only_pairs=True)
        if not rows.any():
            continue
        want = sel.filtered(want, u, sp, rows, pps)
        hist.append(kw)
        ctx.note(history=hist)
        u.select(inplace=True, **kw)
        gen.compare_records(ctx, "select-content", gen.records(u), want, f"after {len(hist)} selections")
        counters(ctx, u)
    ctx.sig(len(hist), tuple(sorted(k for h in hist for k in h)))


def accessors(ctx):
    rng = ctx.rng
    u = mk(rng)
    ctx.note(uvp=gen.describe(u))
    recs = gen.records(u)
    blps = list(dict.fromkeys(u.blpair_array.tolist()))
    keys = u.get_all_keys()
    POL = sel.POLSTR
    expect = {(s, sel.blp_parts(b), (POL[p // 100 - 20], POL[p % 100 - 20]))
              for s in range(u.Nspws) for b in blps for p in u.polpair_array.tolist()}
    low = lambda k: (k[0], k[1], tuple(q if q[0] == "p" else q.lower() for q in k[2]))
    ctx.check("all-keys", {low(k) for k in keys} == expect and len(keys) == len(expect),
              "get_all_keys() is not the product of windows, baseline pairs and polarizations")
    ctx.equal("all-keys", [tuple(b) for b in u.get_blpairs()], [sel.blp_parts(b) for b in blps])
    ctx.equal("all-keys", {low((0, 0, k))[2] for k in u.get_polpairs()}, {k[2] for k in expect})
    for s in range(u.Nspws):
        fr = u.freq_array[u.spw_freq_array == s]
        dl = u.dly_array[u.spw_dly_array == s]
        pos = dl > 1e-10 if u.folded else np.ones(len(dl), bool)
        ctx.close("accessor-content", u.get_dlys(s), dl[pos], 1e-14, what="get_dlys")
        rg = u.get_spw_ranges()[s]
        df = np.median(np.diff(fr))
        ctx.close("spw-ranges", np.array(rg, float),
                  np.array([fr.min(), fr.min() + len(fr) * df, len(fr), pos.sum()]), 1e-12,
                  what="get_spw_ranges")
        for spell in (s, np.int64(s), [s], u.get_spw_ranges()[s], [u.get_spw_ranges()[s]]):
            if not isinstance(spell, (int, np.integer)) and u.get_spw_ranges().index(u.get_spw_ranges()[s]) != s:
                continue  # two windows with the same range
            ctx.equal("index-lookup", u.spw_to_freq_indices(spell).tolist(),
                      np.where(u.spw_freq_array == s)[0].tolist(), f"spw_to_freq_indices {spell}")
            ctx.equal("index-lookup", u.spw_to_dly_indices(spell).tolist(),
                      [i for i in np.where(u.spw_dly_array == s)[0] if not u.folded or u.dly_array[i] > 0], f"spw_to_dly_indices {spell}")
        for b in blps:
            rows = [j for j in range(u.Nbltpairs) if u.blpair_array[j] == b]
            ctx.equal("index-lookup", u.blpair_to_indices(sel.spell_blp(rng, b)).tolist(), rows,
                      "blpair_to_indices")
            for p in u.polpair_array.tolist():
                omit = bool(rng.random() < 0.5)
                key = (int(s) if rng.random() < 0.5 else np.int64(s), sel.spell_blp(rng, b),
                       sel.spell_pp(rng, p))
                kind = (type(key[1]).__name__, type(key[2]).__name__)
                if rng.random() < 0.2:
                    key = dict(zip(("polpair", "spw", "blpair"), (key[2], key[0], key[1])))
                rr = [recs[(round(float(fr[0]), 3), len(fr), len(dl), b, float(u.time_1_array[j]),
                            float(u.time_2_array[j]), p)] for j in rows]
                if omit:
                    rr = [r for r in rr if not r["integ"] == 0.0]
                if not rr:
                    continue
                st = lambda f: np.array([r[f] for r in rr])
                cut = lambda a: a[:, pos]
                ctx.close("accessor-content", u.get_data(key, omit_flags=omit), cut(st("data")),
                          1e-14, what=f"get_data{key}")
                ctx.close("accessor-content", u.get_wgts(key, omit_flags=omit), st("wgts"), 1e-14,
                          what="get_wgts")
                ctx.close("accessor-content", u.get_integrations(key, omit_flags=omit),
                          st("integ"), 1e-14, what="get_integrations")
                ctx.close("accessor-content", u.get_nsamples(key, omit_flags=omit), st("nsample"),
                          1e-14, what="get_nsamples")
                if hasattr(u, "cov_array_real"):
                    for comp in ("real", "imag"):
                        ctx.close("accessor-content", u.get_cov(key, comp, omit_flags=omit),
                                  st("cov_" + comp)[:, pos][:, :, pos], 1e-14, what="get_cov " + comp)
                if hasattr(u, "window_function_array"):
                    w = st("window")
                    if u.folded and not u.exact_windows:
                        w = w[:, pos][:, :, w.shape[2] // 2 + 1:]
                    ctx.close("accessor-content", u.get_window_function(key, omit_flags=omit), w,
                              1e-14, what="get_window_function")
                if hasattr(u, "stats_array"):
                    ctx.close("accessor-content", u.get_stats("P_N", key, omit_flags=omit),
                              cut(st("stat:P_N")), 1e-14, what="get_stats")
                ctx.sig(kind, omit, u.folded)
                if rng.random() < 0.1:
                    # what is handed out may be changed by whoever asked for it
                    held = gen.snapshot(u)
                    for f in (u.get_data, u.get_wgts, u.get_integrations, u.get_nsamples):
                        f(key)[...] = -7.5
                    u.get_dlys(s)[...] = 0
                    d = gen.same_state(gen.snapshot(u), held)
                    ctx.check("accessors-hand-out-copies", d is None, lambda: f"changing the result changes the object: {d}")
    # lists of pairs, windows and polarizations
    some = [blps[i] for i in rng.permutation(len(blps))[:int(rng.integers(1, len(blps) + 1))]]
    want = [j for j in range(u.Nbltpairs) if u.blpair_array[j] in some]
    ctx.equal("index-lookup", u.blpair_to_indices([int(b) for b in some]).tolist(), want, f"pairs {some}")
    ctx.equal("index-lookup", u.blpair_to_indices([sel.blp_parts(b) for b in some]).tolist(), want, f"pairs {some} as antennas")
    sp = [int(x) for x in rng.permutation(u.Nspws)[:int(rng.integers(1, u.Nspws + 1))]]
    rgs = u.get_spw_ranges()
    forms = [sp] + ([[rgs[x] for x in sp]] if len(set(rgs)) == len(rgs) else [])
    for f in forms:
        ctx.equal("index-lookup", u.spw_to_freq_indices(f).tolist(), np.where(np.isin(u.spw_freq_array, sp))[0].tolist(), f"windows {f}")
        ctx.equal("index-lookup", u.spw_to_dly_indices(f).tolist(),
                  [i for i in np.where(np.isin(u.spw_dly_array, sp))[0] if not u.folded or u.dly_array[i] > 0], f"windows {f}")
    pp = [int(x) for x in rng.permutation(u.polpair_array)[:int(rng.integers(1, u.Npols + 1))]]
    got = u.polpair_to_indices([sel.spell_pp(rng, x) for x in pp])
    ctx.equal("index-lookup", sorted(int(i) for i in got), sorted(u.polpair_array.tolist().index(x) for x in pp), f"polarizations {pp}")
    txt = str(u)
    ctx.check("index-lookup", all(f"{k}" in txt for k in ("Ntimes", "Nblpairs", "Nspws", "freq_array", "blpair_array")), "summary of the object")
    # time lookup
    for t in rng.permutation(np.unique(u.time_avg_array))[:3]:
        b = blps[rng.integers(len(blps))]
        want = [j for j in range(u.Nbltpairs) if abs(u.time_avg_array[j] - t) < 1e-7]
        ctx.equal("index-lookup", u.time_to_indices(t).tolist(), want, "time_to_indices")
        ctx.equal("index-lookup", u.time_to_indices(t, blpairs=sel.spell_blp(rng, b)).tolist(),
                  [j for j in want if u.blpair_array[j] == b], "time_to_indices(blpair)")
        bs = [int(x) for x in rng.permutation(blps)[: int(rng.integers(1, len(blps) + 1))]]
        ctx.equal("index-lookup", sorted(int(j) for j in u.time_to_indices(t, blpairs=[sel.spell_blp(rng, x) for x in bs])),
                  [j for j in want if u.blpair_array[j] in bs], "time_to_indices(several blpairs)")
    for p in u.polpair_array.tolist():
        ctx.equal("index-lookup", list(u.polpair_to_indices(sel.spell_pp(rng, p))),
                  [u.polpair_array.tolist().index(p)], "polpair_to_indices")
    # what is not there must be refused
    absent = gen.blp_int((800, 801), (800, 801))
    ctx.raises("absent-key-refused", lambda: u.get_data((0, absent, int(u.polpair_array[0]))))
    ctx.raises("absent-key-refused", lambda: u.get_data((u.Nspws + 3, blps[0], int(u.polpair_array[0]))))
    ctx.raises("absent-key-refused", lambda: u.get_data((0, blps[0], 1717)))
    ctx.raises("absent-key-refused", lambda: u.blpair_to_indices([blps[0], absent]))
    ctx.raises("absent-key-refused", lambda: u.spw_to_dly_indices([0, u.Nspws]))
    ctx.raises("absent-key-refused", lambda: u.polpair_to_indices(1.5), TypeError)
    if not hasattr(u, "cov_array_real"):
        ctx.raises("absent-key-refused", lambda: u.get_cov((0, blps[0], int(u.polpair_array[0]))), AttributeError)
    else:
        ctx.raises("absent-key-refused", lambda: u.get_cov((0, blps[0], int(u.polpair_array[0])), "abs"), ValueError)
    if not hasattr(u, "stats_array"):
        ctx.raises("absent-key-refused", lambda: u.get_stats("P_N", (0, blps[0], int(u.polpair_array[0]))), AttributeError)


def statsio(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng, stats=False)
    ctx.note(uvp=gen.describe(u))
    data0 = copy.deepcopy(u.data_array)
    model = {}
    blps = list(dict.fromkeys(u.blpair_array.tolist()))
    for _ in range(int(rng.integers(2, 8))):
        name = str(rng.choice(["a", "b_c"]))
        s = int(rng.integers(u.Nspws))
        b = blps[rng.integers(len(blps))]
        p = int(rng.choice(u.polpair_array))
        rows = np.where(u.blpair_array == b)[0]
        nd = int(np.sum(u.spw_dly_array == s))
        x = rng.normal(size=(len(rows), nd)) + 1j * rng.normal(size=(len(rows), nd))
        u.set_stats(name, (s, sel.spell_blp(rng, b), sel.spell_pp(rng, p)), x)
        model[(name, s, b, p)] = x
        ctx.raises("stats-set-get", lambda: u.set_stats(name, (s, b, p), x[:, :-1]), ValueError,
                   "wrong shape")
    for name in {k[0] for k in model}:
        for s in range(u.Nspws):
            for b in blps:
                for p in u.polpair_array.tolist():
                    got = u.get_stats(name, (s, b, p))
                    w = model.get((name, s, b, p))
                    if w is None:
                        ctx.check("stats-set-get", np.isnan(got).all(), "unset statistic is not NaN")
                    else:
                        ctx.close("stats-set-get", got, w, 1e-14, what=f"stat {name}")
    ctx.raises("absent-key-refused", lambda: u.get_stats("nope", (0, blps[0], int(u.polpair_array[0]))))
    ctx.check("stats-set-get", gen.same_state(u.data_array, data0) is None, "data changed")
    # wedge masking of a statistic
    u2 = gen.make_uvp(rng, stats=True)
    m, b0, above = rng.uniform(0, 60), rng.uniform(0, 3000), bool(rng.random() < 0.5)
    old = copy.deepcopy(u2.stats_array)
    seps = {}
    for j in range(u2.Nbltpairs):
        b1, b2 = sel.blp_parts(u2.blpair_array[j])
        ap = u2._hv_antpos
        seps[j] = 0.5 * (np.linalg.norm(ap[b1[0]] - ap[b1[1]]) + np.linalg.norm(ap[b2[0]] - ap[b2[1]]))
    u2.set_stats_slice("P_N", m, b0, above=above, val=1e20)
    for s in range(u2.Nspws):
        dl = np.abs(u2.dly_array[u2.spw_dly_array == s]) * 1e9
        for j in range(u2.Nbltpairs):
            y = seps[j] * m + b0
            hit = dl > y if above else dl < y
            sure = np.abs(dl - y) > 1e-6 * (1 + y)
            w = old["P_N"][s][j].copy()
            w[hit] = 1e20
            ctx.close_rel("stats-slice", u2.stats_array["P_N"][s][j][sure], w[sure], 1e-12,
                          what="set_stats_slice")
    ctx.check("stats-slice", gen.same_state(u2.stats_array["noise_err"], old["noise_err"]) is None,
              "another statistic changed")
    ctx.sig(len(model), above)


def common(ctx):
    """select_common keeps exactly what every object has."""
    from hera_pspec import uvpspec_utils as uu
    rng = ctx.rng
    base = gen.make_uvp(rng, nblp=4, ntimes=4, nspw=2, npol=3, ragged=False,
                        spw_sorted=True, wrap_lst=rng.random() < 0.2)
    objs, n = [], int(rng.integers(2, 4))
    blps = sorted(set(base.blpair_array.tolist()))
    ts = np.unique(base.time_avg_array)
    for _ in range(n):
        kw = {}
        if rng.random() < 0.6:
            kw["blpairs"] = [int(b) for b in rng.choice(blps, max(2, len(blps) - 1), replace=False)]\
                if len(blps) > 1 else blps
        if rng.random() < 0.6:
            kw["times"] = rng.choice(ts, 3, replace=False)
        if rng.random() < 0.5:
            kw["polpairs"] = [int(p) for p in rng.choice(base.polpair_array, 2, replace=False)]
        if rng.random() < 0.3:
            kw["spws"] = [int(rng.integers(2))]
        objs.append(base.select(inplace=False, **kw))
    opts = {k: bool(rng.random() < 0.7) for k in ["spws", "blpairs", "polpairs"]}
    tm = rng.integers(3)
    opts["times"], opts["lsts"] = bool(tm == 1), bool(tm == 2)
    ctx.note(objs=[gen.describe(o) for o in objs], opts=opts)

    def axis(o, name):
        if name == "spws":
            return set(o.get_spw_ranges())
        return set({"blpairs": o.blpair_array, "polpairs": o.polpair_array, "times": o.time_avg_array,
                    "lsts": o.lst_avg_array}[name].tolist())
    want, empty = [], False
    sets = {k: set.intersection(*[axis(o, k) for o in objs]) for k, v in opts.items() if v}
    empty = any(len(v) == 0 for v in sets.values())
    full = [gen.records(o) for o in objs]
    for o, r in zip(objs, full):
        rows = np.ones(o.Nbltpairs, bool)
        if opts["blpairs"]:
            rows &= np.isin(o.blpair_array, list(sets["blpairs"]))
        if opts["times"]:
            rows &= np.isin(o.time_avg_array, list(sets["times"]))
        if opts["lsts"]:
            rows &= np.isin(o.lst_avg_array, list(sets["lsts"]))
        sp = {i for i, g in enumerate(o.get_spw_ranges()) if not opts["spws"] or g in sets["spws"]}
        pps = sets["polpairs"] if opts["polpairs"] else set(o.polpair_array.tolist())
        want.append(sel.filtered(r, o, sp, rows, pps))
    if empty:
        ctx.raises("common-selection", lambda: uu.select_common(objs, inplace=False, **opts), ValueError,
                   "nothing in common")
        ctx.sig("empty", tuple(sorted(sets)))
        return
    if any(len(w) == 0 for w in want):
        return
    snaps = [gen.snapshot(o) for o in objs]
    out = uu.select_common(objs, inplace=False, **opts)
    for o, w in zip(out, want):
        gen.compare_records(ctx, "common-selection", gen.records(o), w, f"select_common {opts}")
    for o, s in zip(objs, snaps):
        ctx.check("select-copy-leaves-original", gen.same_state(gen.snapshot(o), s) is None, "changed")
    uu.select_common(objs, inplace=True, **opts)
    for o, w in zip(objs, want):
        gen.compare_records(ctx, "common-selection", gen.records(o), w, f"inplace {opts}")
    ctx.sig(tuple(sorted(k for k in opts if opts[k])), n)


CASES = [Case("select", select, 150, 1500), Case("sequence", sequence, 100, 1000),
         Case("accessors", accessors, 120, 1200), Case("statsio", statsio, 60, 500),
         Case("common", common, 100, 1000)]
