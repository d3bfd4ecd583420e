"""C08: a container behaves as a map from (group, name) to power spectra."""
import copy
import json
import os
import subprocess
import sys
import time

import h5py
import numpy as np

from hera_pspec import container, uvpspec
from hv import gen, sel
from hv.core import REPO, Case, Inconclusive

ID = "C08"
RULE = ("random histories of store / replace / fetch / list / merge / reopen operations on real container "
        "files through several handles (kept open or transactional) are replayed against a dictionary model; "
        "invalid objects, write faults injected at every dataset-creation point, and concurrent processes "
        "are included; distinct = distinct operation sequence prefix, fault point or merge layout")
REQUIRE = {"fetch-content": 50, "listing": 50, "refused-store-leaves-content": 10,
           "swmr-takes-nothing-new": 10, "busy-file-is-retried": 5, "busy-file-is-reported": 3,
           "merge-content": 10, "merge-leaves-others": 10, "fault-leaves-others": 10,
           "no-lost-update": 2}
ASSUMPTIONS = ["faults are exceptions raised by the storage layer, not process kills (HDF5 files are not "
               "crash consistent)", "concurrent writers use transactional handles with retries, as documented"]

NAMES = ["a_x_b", "a_x_bc", "za_x_b", "ps", "ps_1", "p", "d1_x_d2"]
GROUPS = ["g", "gg", "g2"]


def small(rng, **kw):
    return gen.make_uvp(rng, nspw=int(rng.integers(1, 3)), nblp=kw.pop("nblp", 2), ntimes=2, npol=1, **kw)


def recs(u):
    """Every spectrum with its content, labelled with the metadata of the whole object."""
    out = gen.records(u)
    at = repr((gen.meta(u), u.history, [hasattr(u, k) for k in ("OmegaP", "beam_freqs", "cosmo", "stats_array",
                                                                "cov_array_real", "window_function_array")]))
    for r in out.values():
        r["_object"] = at
    return out


def same(ctx, mon, got, want, what):
    # merging concatenates histories
    gen.compare_records(ctx, mon, recs(got), want, what, skip=("_object",) if mon == "merge-content" else ())


def verify(ctx, psc, model, mon="listing"):
    gs = {}
    for (g, n), r in model.items():
        gs.setdefault(g, set()).add(n)
    listed = set(psc.groups())
    ctx.check(mon, set(gs) <= listed and "header" not in listed,
              lambda: f"groups() {listed} model {set(gs)}")
    for g in gs:
        ctx.equal(mon, sorted(psc.spectra(g)), sorted(gs[g]), f"spectra({g})")
    t = psc.tree(return_str=False)
    ctx.equal(mon, {g: set(v) for g, v in t.items() if v}, gs, "tree()")
    txt, cur = {}, None
    for line in psc.tree().splitlines():
        if line.startswith("("):
            cur = line.strip("()")
        else:
            txt.setdefault(cur, set()).add(line.split("|--")[1])
    ctx.equal(mon, txt, gs, "tree as text")


def busy(ctx, path, model):
    rng = ctx.rng
    fails, allow = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    mode = "r" if rng.random() < 0.5 else "rw"
    cnt = [0]

    class Busy(h5py.File):
        def __init__(self, *a, **kw):
            cnt[0] += 1
            if cnt[0] <= fails:
                raise OSError(11, "injected: unable to lock file")
            super().__init__(*a, **kw)
    orig = h5py.File
    h5py.File = Busy
    try:
        psc = container.PSpecContainer(path, mode, keep_open=False, tsleep=0.001, maxiter=allow)
        if allow >= fails:
            verify(ctx, psc, model, mon="busy-file-is-retried")
        else:
            ctx.raises("busy-file-is-reported", psc.groups, OSError, what=f"{fails} failures, {allow} retries")
    finally:
        h5py.File = orig
    ctx.check("transactional-handle-closed", psc.data is None, "left open after a busy file")


def history(ctx):
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    ctx.raises("bad-mode-refused", lambda: container.PSpecContainer(path, str(rng.choice(["w", "a", "wr", ""]))), ValueError)
    ctx.check("bad-mode-refused", not os.path.exists(path), "a refused mode created a file")
    model, trace = {}, []
    keep = bool(rng.random() < 0.5)
    psc = container.PSpecContainer(path, "rw", keep_open=keep)
    for step in range(int(rng.integers(8, 16))):
        op = rng.choice(["set", "set", "set", "set_existing", "overwrite", "get", "get_all", "partial",
                         "reopen", "readonly", "invalid", "setlist", "missing", "save", "swmr", "busy"])
        g, n = str(rng.choice(GROUPS)), str(rng.choice(NAMES))
        trace.append((str(op), g, n))
        ctx.note(trace=trace, keep_open=keep)
        ctx.event("op:" + str(op))
        if op == "set":
            if (g, n) in model:
                continue
            u = small(rng)
            before = gen.snapshot(u)
            psc.set_pspec(g, n, u)
            model[(g, n)] = recs(u)
            ctx.check("store-does-not-modify", gen.same_state(gen.snapshot(u), before) is None, "changed")
        elif op == "set_existing" and model:
            (g, n) = list(model)[rng.integers(len(model))]
            u = small(rng)
            ctx.raises("existing-name-refused", lambda: psc.set_pspec(g, n, u), what=f"{g}/{n}")
            same(ctx, "refused-store-leaves-content", psc.get_pspec(g, n), model[(g, n)],
                 "after refused store")
        elif op == "overwrite":
            if model and rng.random() < 0.8:
                (g, n) = list(model)[rng.integers(len(model))]
            u = small(rng)
            psc.set_pspec(g, n, u, overwrite=True)
            model[(g, n)] = recs(u)
        elif op == "setlist":
            names = [x for x in NAMES if (g, x) not in model][:2]
            us = [small(rng) for _ in names]
            if len(names) == 2 and rng.random() < 0.5:
                ctx.raises("mismatched-list-refused", lambda: psc.set_pspec(g, names, us[:1]))
                ctx.raises("mismatched-list-refused", lambda: psc.set_pspec(g, names[0], us))
                ctx.raises("mismatched-list-refused", lambda: psc.set_pspec([g, "g2"], names[0], us[0]))
                ctx.raises("mismatched-list-refused", lambda: psc.set_pspec(g, names, ["junk", us[1]]))
                verify(ctx, psc, model)
                psc.set_pspec(g, names, us)
                for x, u in zip(names, us):
                    model[(g, x)] = recs(u)
            elif names or model:
                # a list in which one name is taken, or given twice
                taken = [x for x in NAMES if (g, x) in model]
                new = names[0] if names else "fresh"
                lst = [new, taken[0]] if taken and rng.random() < 0.5 else [new, new]
                us = [small(rng) for _ in lst]
                ctx.raises("existing-name-refused", lambda: psc.set_pspec(g, lst, us), what=f"list {lst} in {g}")
                if (g, new) not in model and g in psc.groups() and new in psc.spectra(g):
                    model[(g, new)] = recs(us[0])  # what came before the refusal may be there
                verify(ctx, psc, model)
                if rng.random() < 0.5:
                    us = [small(rng) for _ in lst]
                    psc.set_pspec(g, lst, us, overwrite=True)
                    for x, u in zip(lst, us):
                        model[(g, x)] = recs(u)
                    verify(ctx, psc, model)
        elif op == "get" and model:
            (g, n) = list(model)[rng.integers(len(model))]
            same(ctx, "fetch-content", psc.get_pspec(g, n), model[(g, n)], f"{g}/{n}")
        elif op == "get_all" and model:
            g = list(model)[rng.integers(len(model))][0]
            got = psc.get_pspec(g)
            names = psc.spectra(g)
            ctx.equal("listing", len(got), len([1 for k in model if k[0] == g]), "get_pspec(group)")
            for x, u in zip(names, got):
                same(ctx, "fetch-content", u, model[(g, x)], f"all of {g}: {x}")
        elif op == "partial" and model:
            (g, n) = list(model)[rng.integers(len(model))]
            u = psc.get_pspec(g, n)
            kw, sp, rows, pps, kinds = sel.rand_selection(rng, u, default_only_pairs=False)
            if rows.any():
                want = sel.filtered(model[(g, n)], u, sp, rows, pps)
                gen.compare_records(ctx, "fetch-content", recs(psc.get_pspec(g, n, **kw)),
                                    want, f"partial {kw}")
                m = psc.get_pspec(g, n, just_meta=True)
                ctx.check("listing", not hasattr(m, "data_array"), "just_meta loaded data")
        elif op == "reopen":
            psc._close()
            keep = bool(rng.random() < 0.5)
            psc = container.PSpecContainer(path, "rw", keep_open=keep)
        elif op == "readonly":
            if not os.path.exists(path):
                continue
            psc._close()
            ro = container.PSpecContainer(path, "r", keep_open=keep)
            u = small(rng)
            ctx.raises("read-only-refused", lambda: ro.set_pspec(g, "new", u), OSError)
            verify(ctx, ro, model)
            for (g, n), r in model.items():
                same(ctx, "fetch-content", ro.get_pspec(g, n), r, f"read-only {g}/{n}")
            ro._close()
            psc = container.PSpecContainer(path, "rw", keep_open=keep)
        elif op == "invalid":
            if model and rng.random() < 0.7:
                (g, n) = list(model)[rng.integers(len(model))]
            bad = small(rng)
            how = rng.integers(3)
            if how == 0:
                delattr(bad, str(rng.choice(["data_array", "labels", "taper"])))
            elif how == 1:
                bad.polpair_array = "junk"
            else:
                bad = {"not": "a power spectrum"}
            ctx.raises("invalid-object-refused",
                       lambda: psc.set_pspec(g, n, bad, overwrite=True), what=f"kind {how}")
            if (g, n) in model:
                try:
                    u = psc.get_pspec(g, n)
                except Exception as e:
                    ctx.check("refused-store-leaves-content", False,
                              f"{g}/{n} unreadable after a refused overwrite: {e!r}")
                    del model[(g, n)]
                else:
                    same(ctx, "refused-store-leaves-content", u, model[(g, n)], "after refused overwrite")
            elif rng.random() < 0.5:
                u = small(rng)
                psc.set_pspec(g, n, u, overwrite=True)
                model[(g, n)] = recs(u)
        elif op == "missing":
            ctx.raises("absent-name-refused", lambda: psc.get_pspec("nogroup", "x"), KeyError)
            if model:
                g = list(model)[0][0]
                ctx.raises("absent-name-refused", lambda: psc.get_pspec(g, "nope"), KeyError)
                ctx.raises("absent-name-refused", lambda: psc.spectra("nogroup"), KeyError)
        elif op == "save":
            psc.save()
        elif op == "swmr" and model:
            # single-writer multiple-reader handles read the same map and take nothing new
            psc._close()
            w = container.PSpecContainer(path, "rw", keep_open=True, swmr=True)
            r = container.PSpecContainer(path, "r", keep_open=bool(rng.random() < 0.5), swmr=True)
            (g, n) = list(model)[rng.integers(len(model))]
            same(ctx, "fetch-content", r.get_pspec(g, n), model[(g, n)], f"swmr reader {g}/{n}")
            verify(ctx, r, model)
            u = small(rng)
            ctx.raises("swmr-takes-nothing-new", lambda: w.set_pspec("newgroup", "x", u), ValueError)
            ctx.raises("swmr-takes-nothing-new", lambda: w.set_pspec(g, "newname", u), ValueError)
            ctx.raises("swmr-takes-nothing-new", lambda: r.set_pspec(g, n, u, overwrite=True), OSError)
            verify(ctx, w, model)
            same(ctx, "fetch-content", w.get_pspec(g, n), model[(g, n)], f"swmr writer {g}/{n}")
            r._close()
            w._close()
            psc = container.PSpecContainer(path, "rw", keep_open=keep)
        elif op == "busy" and model:
            # a file that is busy for a while is opened once it is free, or the error is reported
            psc._close()
            busy(ctx, path, model)
            psc = container.PSpecContainer(path, "rw", keep_open=keep)
        if not keep:
            ctx.check("transactional-handle-closed", psc.data is None, f"left open after {op}")
        verify(ctx, psc, model)
    for (g, n), r in model.items():
        same(ctx, "fetch-content", psc.get_pspec(g, n), r, f"final {g}/{n}")
    psc._close()
    ctx.sig(tuple(t[0] for t in trace[:6]), keep)
    ctx.sample(trace=trace)


def fault(ctx):
    """A storage error part-way through storing one spectrum leaves the others."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    keep = bool(rng.random() < 0.5)
    psc = container.PSpecContainer(path, "rw", keep_open=keep)
    model = {}
    for g, n in [("g", "a"), ("g", "b"), ("h", "a")]:
        u = small(rng)
        psc.set_pspec(g, n, u)
        model[(g, n)] = recs(u)
    u = small(rng)
    orig = h5py.Group.create_dataset
    k = 0
    while True:
        cnt = [0]

        def failing(self, *a, **kw):
            cnt[0] += 1
            if cnt[0] == k + 1:
                raise OSError(5, "injected I/O error")
            return orig(self, *a, **kw)

        h5py.Group.create_dataset = failing
        try:
            psc.set_pspec("g", "new", u, overwrite=True)
            done = True
        except OSError:
            done = False
        finally:
            h5py.Group.create_dataset = orig
        if cnt[0] <= k:
            if not done:
                raise Inconclusive("fault not at a dataset")
            break
        ctx.event("fault-points")
        ctx.sig(k, keep)
        if not done:
            ctx.check("failed-store-not-listed", "new" not in psc.spectra("g") or
                      _ok(psc, u), "a half-written spectrum is listed as stored")
        for (g, n), r in model.items():
            same(ctx, "fault-leaves-others", psc.get_pspec(g, n), r, f"{g}/{n} after fault {k}")
        k += 1 if ctx.tier == "thorough" else 3
    same(ctx, "fetch-content", psc.get_pspec("g", "new"), recs(u), "retry after faults")
    psc._close()


def _ok(psc, u):
    try:
        return gen.same_state(recs(psc.get_pspec("g", "new")), recs(u)) is None
    except Exception:
        return False


def merge(ctx):
    """Merging extensions keeps every spectrum, once, under its own name."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    nodset = bool(rng.random() < 0.25)
    bases = ["uvp", "uv", "xuvp"] if nodset else ["a_x_b", "a_x_bc", "za_x_b", "a_x_a", "aa_x_b"]
    es, dss = "_", "_x_"
    if rng.random() < 0.35:
        # other separators
        es, dss = [(".", "_x_"), ("-", "__"), ("+", "%"), ("_v", "_x_")][rng.integers(4)]
        if not nodset:
            bases = [b.replace("_x_", dss) for b in ["aa_x_b", "aa_x_bc", "zaa_x_b", "aa_x_aa"]]
            if es == "." or es == "-":
                bases += [f"p_q{dss}r_s" if es == "." else f"p.q{dss}r"]
    rng.shuffle(bases)
    keep = True
    psc = container.PSpecContainer(path, "rw", keep_open=keep)
    model, want = {}, {}
    groups = ["g"] if rng.random() < 0.5 else ["g", "gg"]
    only = groups if rng.random() < 0.6 else groups[:1]
    layout = []
    for g in groups:
        for b in bases[: int(rng.integers(1, 5))]:
            # files that disagree on their beam cannot be combined, so all
            # polarisations share one
            u = gen.make_uvp(rng, nspw=int(rng.integers(1, 3)), nblp=3, ntimes=3, npol=2, ragged=False,
                             beam="same" if rng.random() < 0.5 else False)
            ax = rng.choice(["blp", "time", "pol", "single"])
            full = recs(u)
            if ax == "blp":
                parts = [u.select(blpairs=[x], inplace=False) for x in u.get_blpairs()]
            elif ax == "time":
                ts = np.unique(u.time_avg_array)
                parts = [u.select(times=[t], inplace=False) for t in ts]
            elif ax == "pol":
                parts = [u.select(polpairs=[int(p)], inplace=False) for p in u.polpair_array]
            else:
                parts = [u]
            exts = [f"_{x}" for x in (["1", "2", "10"] if rng.random() < 0.5 else ["x.1", "y", "zz_3"])]
            if es != "_" or dss != "_x_":
                exts = [es + x for x in ["1", "2", "10"]]
            names = [b + e for e in exts[: len(parts)]]
            order = rng.permutation(len(parts))
            for i in order:
                psc.set_pspec(g, names[i], parts[i])
                model[(g, names[i])] = recs(parts[i])
            layout.append((g, b, str(ax), len(parts)))
            if g in only:
                want[(g, b)] = full
            else:
                for i in order:
                    want[(g, names[i])] = model[(g, names[i])]
    ctx.note(layout=layout, only=only)
    kw = dict(groups=list(only) + (["absent"] if rng.random() < 0.2 else []), verbose=False)
    if only == groups and rng.random() < 0.3:
        kw["groups"] = None
    if es != "_" or dss != "_x_":
        kw.update(ext_split_str=es, dset_split_str=dss)
    if nodset:
        kw["dset_split_str"] = "" if rng.random() < 0.5 else None
    ctx.note(layout=layout, only=only, kw=kw)
    ctx.raises("absent-group-refused", lambda: container.combine_psc_spectra(psc, groups=["absent"], verbose=False))
    if rng.random() < 0.3:
        psc._close()
        container.combine_psc_spectra(path, **kw)
        psc = container.PSpecContainer(path, "rw")
    else:
        container.combine_psc_spectra(psc, **kw)
    for (g, n), r in want.items():
        try:
            got = psc.get_pspec(g, n)
        except Exception as e:
            ctx.check("merge-content", False, f"{g}/{n} missing after merge: {e!r}; "
                      f"have {psc.spectra(g)}")
            continue
        same(ctx, "merge-content", got, r, f"merged {g}/{n}")
        ctx.check("merge-content", not gen.structure_errors(got), lambda: str(gen.structure_errors(got)))
    for g in groups:
        ctx.equal("merge-leaves-others", sorted(psc.spectra(g)), sorted(n for q, n in want if q == g),
                  f"names in {g} after merge of {only}")
    # merging again changes nothing
    container.combine_psc_spectra(psc, **kw)
    for (g, n), r in want.items():
        if n in psc.spectra(g):
            same(ctx, "merge-content", psc.get_pspec(g, n), r, "second merge")
    psc._close()
    ctx.sig(tuple(sorted({x[2] for x in layout})), len(layout), nodset)
    ctx.sample(layout=layout)


def merge_conflict(ctx):
    """Spectra that cannot be merged, or whose target exists, stay as they were."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    psc = container.PSpecContainer(path, "rw")
    u = gen.make_uvp(rng, nspw=1, nblp=3, ntimes=2, npol=2, ragged=False)
    b = u.get_blpairs()
    mode = rng.choice(["overlap", "target-exists", "mixed-axes"])
    model = {}

    def put(n, x):
        psc.set_pspec("g", n, x)
        model[("g", n)] = recs(x)
    if mode == "overlap":
        put("a_x_b_1", u.select(blpairs=b[:2], inplace=False))
        put("a_x_b_2", u.select(blpairs=b[-2:], inplace=False) if len(b) > 2 else u)
    elif mode == "target-exists":
        put("a_x_b", u.select(blpairs=b[:1], inplace=False))
        put("a_x_b_1", u.select(blpairs=b[-1:], inplace=False))
    else:
        put("a_x_b_1", u.select(blpairs=b[:1], polpairs=[int(u.polpair_array[0])], inplace=False))
        put("a_x_b_2", u.select(blpairs=b[-1:], polpairs=[int(u.polpair_array[1])], inplace=False)
            if len(b) > 1 else u)
    if len(b) < 3 and mode != "target-exists":
        return
    container.combine_psc_spectra(psc, verbose=False)
    for (g, n), r in model.items():
        try:
            got = psc.get_pspec(g, n)
        except Exception as e:
            ctx.check("merge-leaves-others", False, f"{mode}: {n} lost: {e!r}")
            continue
        same(ctx, "merge-leaves-others", got, r, f"{mode}: {n}")
    if mode == "target-exists" and len(b) >= 2:
        # when asked to, the target takes in its pieces and keeps what it had
        hist = bool(rng.random() < 0.5)
        container.combine_psc_spectra(psc, verbose=False, overwrite=True, merge_history=hist)
        ctx.equal("merge-leaves-others", psc.spectra("g"), ["a_x_b"], "names after an overwriting merge")
        want = dict(recs(u.select(blpairs=[b[0], b[-1]], inplace=False)))
        same(ctx, "merge-content", psc.get_pspec("g", "a_x_b"), want, "overwriting merge")
    psc._close()
    ctx.sig(str(mode))


def transactional_merge(ctx):
    """The same merge through a handle that is not kept open."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    psc = container.PSpecContainer(path, "rw", keep_open=False)
    u = gen.make_uvp(rng, nspw=1, nblp=3, ntimes=2, npol=1, ragged=False)
    for i, x in enumerate(u.get_blpairs()):
        psc.set_pspec("g", f"a_x_b_{i}", u.select(blpairs=[x], inplace=False))
    container.combine_psc_spectra(psc, verbose=False)
    ctx.equal("merge-leaves-others", psc.spectra("g"), ["a_x_b"], "transactional merge")
    same(ctx, "merge-content", psc.get_pspec("g", "a_x_b"), recs(u), "transactional merge")
    ctx.check("transactional-handle-closed", psc.data is None, "left open by a merge")
    ctx.sig(u.Nbltpairs)


WRITER = r'''
import sys, json
import numpy as np
from hv import gen
from hera_pspec import container
path, wid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
rng = np.random.default_rng([seed, wid])
us = [gen.make_uvp(rng, nspw=1, nblp=1, ntimes=1, npol=1) for _ in range(n)]
sys.stdout.write("ready\n"); sys.stdout.flush(); sys.stdin.readline()
log = []
for i, u in enumerate(us):
    psc = container.PSpecContainer(path, "rw", keep_open=False, tsleep=0.002 * (1 + wid), maxiter=20000)
    psc.set_pspec("g%d" % (i % 2), "w%d_%d" % (wid, i), u)
    log.append(("g%d" % (i % 2), "w%d_%d" % (wid, i)))
sys.stdout.write("LOG" + json.dumps(log) + "\n"); sys.stdout.flush()
'''


def concurrent(ctx):
    """Writers sharing a file through transactional handles lose nothing."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    nw, n = 3, (4 if ctx.tier == "quick" else 10)
    seed = int(rng.integers(1 << 30))
    if rng.random() < 0.7:
        container.PSpecContainer(path, "rw", keep_open=False).set_pspec("g0", "seed", small(rng))
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", "-c", WRITER, path, str(w), str(n), str(seed)],
                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
          for w in range(nw)]
    try:
        for p in ps:
            for line in p.stdout:
                if line.startswith("ready"):
                    break
        for p in ps:
            p.stdin.write("go\n")
            p.stdin.flush()
        logs = []
        for p in ps:
            try:
                out, err = p.communicate(timeout=90)
            except subprocess.TimeoutExpired:
                raise Inconclusive("writer still waiting for the file")
            lg = [ln for ln in out.splitlines() if ln.startswith("LOG")]
            ctx.check("concurrent-writer-finished", p.returncode == 0 and lg, lambda: err[-600:])
            if lg:
                logs += [tuple(x) for x in json.loads(lg[0][3:])]
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    psc = container.PSpecContainer(path, "r")
    for w in range(nw):
        r = np.random.default_rng([seed, w])
        for i in range(n):
            u = gen.make_uvp(r, nspw=1, nblp=1, ntimes=1, npol=1)
            key = ("g%d" % (i % 2), "w%d_%d" % (w, i))
            if key in logs:
                try:
                    got = psc.get_pspec(*key)
                except Exception as e:
                    ctx.check("no-lost-update", False, f"{key} acknowledged but missing: {e!r}")
                    continue
                same(ctx, "no-lost-update", got, recs(u), f"{key}")
                ctx.event("concurrent-stores")
    psc._close()
    ctx.sig(seed % 1000)


CASES = [Case("history", history, 40, 500), Case("fault", fault, 8, 30), Case("merge", merge, 40, 400),
         Case("merge_conflict", merge_conflict, 12, 60),
         Case("transactional_merge", transactional_merge, 3, 10),
         Case("concurrent", concurrent, 2, 12, timeout=150)]
