"""C14: bootstrap resampling draws with replacement and reports the spread of its own samples."""
import copy
import os

import numpy as np

from hera_pspec import container, grouping
from hv import gen, sel
from hv.checks import c11
from hv.core import Case

ID = "C14"
RULE = ("random objects are resampled over random baseline-pair groups (listed in any order, as integers or tuples); "
        "the returned weights must be counts of draws with replacement and the returned averages must be the weighted "
        "means with exactly those weights; error estimates are recomputed from the returned samples; draw "
        "statistics over many samples are tested against the multinomial law; container runs are compared with direct "
        "calls; distinct = distinct grouping x option combination")
REQUIRE = {"draw-counts": 100, "average": 500, "spread-of-samples": 100, "same-seed-same-draw": 20,
           "draw-law": 10, "container-run": 30, "baseline-groups": 40}
ASSUMPTIONS = ["the rows of baseline pairs averaged together list corresponding times in the same order",
               "with several objects, each object receives at least one draw in each group (otherwise see known findings)",
               "draw statistics are tested with bounds of six standard deviations"]


def make(rng, **kw):
    u = c11.make(rng, **kw)
    return u


def groups_of(rng, u, full):
    g = c11.rand_groups(rng, u, full)
    seen = set()  # each pair once: the law of the draw is then exact
    out = []
    for grp in g:
        grp = [b for b in grp if b not in seen]
        seen |= set(grp)
        if grp:
            out.append(grp)
    return out


def blps(u):
    return [int(b) for b in dict.fromkeys(u.blpair_array.tolist())]


def counts_ok(ctx, wgts, groups):
    ctx.equal("draw-counts", [len(w) for w in wgts], [len(g) for g in groups], "shape of the weights")
    for w, g in zip(wgts, groups):
        w = np.asarray(w, float)
        ctx.check("draw-counts", (w >= 0).all() and (w == np.round(w)).all() and w.sum() == len(g),
                  lambda: f"{w} is not a draw of {len(g)} with replacement from {len(g)}")


def single(ctx):
    rng = ctx.rng
    time_avg = bool(rng.random() < 0.5)
    u = make(rng, nblp=int(rng.integers(1, 7)))
    groups = groups_of(rng, u, u.exact_windows)
    arg = [[sel.blp_parts(b) for b in g] for g in groups] if rng.random() < 0.4 else copy.deepcopy(groups)
    arg0 = copy.deepcopy(arg)
    seed = int(rng.integers(1, 10**6))
    before = gen.snapshot(u)
    ctx.note(uvp=gen.describe(u), groups=groups, seed=seed, time_avg=time_avg)
    lst = bool(rng.random() < 0.3)
    out, w = grouping.bootstrap_average_blpairs([u] if lst else u, arg, time_avg=time_avg, seed=seed)
    if lst:
        out, w = out[0], w[0]
    gen.consistent(ctx, out, "resampled average")
    ctx.check("input-unchanged", gen.same_state(gen.snapshot(u), before) is None and arg == arg0, "input changed")
    counts_ok(ctx, w, groups)
    extra = [b for b in blps(u) if not any(b in g for g in groups)]
    c11.verify(ctx, u, out, c11.cells(u), groups + [[b] for b in extra], [list(x) for x in w] + [[1.0]] * len(extra),
               time_avg, None, [])
    out2, w2 = grouping.bootstrap_average_blpairs(u, copy.deepcopy(arg0), time_avg=time_avg, seed=seed)
    ctx.check("same-seed-same-draw", [list(a) for a in w] == [list(a) for a in w2]
              and gen.same_state(out2.data_array, out.data_array) is None, "same seed gives another sample")
    ctx.sig(len(groups), tuple(sorted(map(len, groups))), time_avg, u.exact_windows, lst)


def several(ctx):
    """Draws are shared out over the objects; each returns the average of its own draws."""
    rng = ctx.rng
    time_avg = bool(rng.random() < 0.5)
    u = make(rng, nblp=int(rng.integers(4, 8)), exact=False, npol=2, odd_times=False)
    b = blps(u)
    if len(b) < 4:
        return
    cut = int(rng.integers(2, len(b) - 1))
    part = [b[:cut], b[cut:]]
    if len(b) >= 5 and rng.random() < 0.5:
        part = [b[:2], b[2:4], b[4:]]
    us = [u.select(blpairs=p, inplace=False) for p in part]
    if rng.random() < 0.4:  # a pair may be held by several objects
        part[0] = part[0] + [part[1][0]]
        us[0] = u.select(blpairs=part[0], inplace=False)
        us[0].data_array = {s: 2 * x for s, x in us[0].data_array.items()}
    if rng.random() < 0.5:  # only common windows and polarizations are used
        k = int(rng.integers(len(us)))
        us[k] = us[k].select(polpairs=[int(u.polpair_array[0])], inplace=False)
    if rng.random() < 0.5 and u.Nspws > 1:
        k = int(rng.integers(len(us)))
        us[k] = us[k].select(spws=[int(rng.integers(u.Nspws))], inplace=False)
    g = [b[i] for i in rng.permutation(len(b))]
    for _ in range(20):
        seed = int(rng.integers(1, 10**6))
        st = np.random.RandomState(seed)
        before = [gen.snapshot(x) for x in us]
        try:
            outs, ws = grouping.bootstrap_average_blpairs(us, [g], time_avg=time_avg, seed=seed)
        except ValueError as e:
            if "weights in group" in str(e):
                continue  # no draw for one of the objects
            raise
        break
    else:
        return
    ctx.note(uvp=gen.describe(u), group=g, seed=seed)
    for x, y in zip(us, before):
        ctx.check("input-unchanged", gen.same_state(gen.snapshot(x), y) is None, "input changed")
    w = [np.asarray(x[0], float) for x in ws]
    ctx.check("draw-counts", sum(x.sum() for x in w) == sum(map(len, part)) and all((x == np.round(x)).all() for x in w), f"{w}")
    common = sorted(set.intersection(*[set(x.polpair_array.tolist()) for x in us]))
    win = lambda x: {tuple(map(float, r)): i for i, r in enumerate(x.get_spw_ranges())}
    cw = set.intersection(*[set(win(x)) for x in us])
    for x, o, wt in zip(us, outs, w):
        mine = [q for q in g if q in blps(x)]
        ctx.equal("draw-counts", len(wt), len(mine), "weights of one object")
        ref = x.select(polpairs=common, spws=sorted(win(x)[r] for r in cw), inplace=False)
        ctx.equal("average", (sorted(o.polpair_array.tolist()), sorted(win(o))), (sorted(common), sorted(cw)),
                  "polarizations and windows of the averages")
        c11.verify(ctx, ref, o, c11.cells(ref), [mine], [list(wt)], time_avg, None, [])
    ctx.sig("several", len(b), cut, len(us), time_avg)


def known_zero_draw(ctx):
    """Known finding: an object that receives no draw makes the call fail."""
    rng = ctx.rng
    u = make(rng, nblp=2, exact=False)
    b = blps(u)
    if len(b) < 2:
        return
    us = [u.select(blpairs=[x], inplace=False) for x in b]
    bad = None
    ok = True
    for seed in range(30):
        try:
            grouping.bootstrap_average_blpairs(us, [b], seed=seed)
        except Exception as e:
            ok, bad = False, e
            break
    ctx.finding("bootstrap-zero-draw", ok, isinstance(bad, ValueError) and "weights in group" in str(bad), repr(bad))


def biweight_std(x):
    """sqrt of the biweight midvariance (Beers, Flynn & Gebhardt 1990, c = 9)."""
    M = np.median(x, axis=0)
    mad = np.median(np.abs(x - M), axis=0)
    with np.errstate(all="ignore"):
        u = (x - M) / (9.0 * mad)
        m = np.abs(u) < 1
        v = (1 - u**2)
        num = np.where(m, (x - M) ** 2 * v**4, 0).sum(0)
        den = np.where(m, v * (1 - 5 * u**2), 0).sum(0)
        r = np.sqrt(len(x) * num) / np.abs(den)
    return np.where(mad == 0, 0.0, r)


def resampled(ctx):
    rng = ctx.rng
    time_avg = bool(rng.random() < 0.5)
    u = make(rng, nblp=int(rng.integers(2, 7)), exact=False, stats=False)
    path = os.path.join(ctx.tmp, "u.h5")
    default = rng.random() < 0.3
    groups = groups_of(rng, u, False)
    N = int(rng.integers(3, 12))
    ci = [float(x) for x in rng.choice([2.5, 16.0, 50.0, 84.0, 97.72], int(rng.integers(1, 4)), replace=False)]
    kw = dict(time_avg=time_avg, Nsamples=N, seed=int(rng.integers(1, 10**6)), normal_std=bool(rng.random() < 0.8),
              robust_std=bool(rng.random() < 0.6), cintervals=ci if rng.random() < 0.7 else None)
    if not default:
        kw["blpair_groups"] = copy.deepcopy(groups)
    src = u
    if rng.random() < 0.3:
        u.write_hdf5(path, overwrite=True)
        src = path
    before = gen.snapshot(u)
    ctx.note(uvp=gen.describe(u), kw=kw)
    avg, boots, wgts = grouping.bootstrap_resampled_error(src, **copy.deepcopy(kw))
    ctx.check("input-unchanged", gen.same_state(gen.snapshot(u), before) is None, "input changed")
    ctx.equal("spread-of-samples", (len(boots), len(wgts)), (N, N), "number of samples")
    if default:
        antp = u._hv_antpos
        vec = {}
        for q in blps(u):
            (a, b), (c, d) = sel.blp_parts(q)
            vec[q] = 0.5 * (antp[a] - antp[b] + antp[c] - antp[d])[:2]
        # redundant groups: members within 1 m of each other in each of E and N
        groups = []
        for q in blps(u):
            for grp in groups:
                if (np.abs(vec[grp[0]] - vec[q]) < 1.0).all():
                    grp.append(q)
                    break
            else:
                groups.append([q])
        first = {g[0]: g for g in groups}
        order = list(dict.fromkeys(avg.blpair_array.tolist()))
        if not ctx.check("average", set(order) == set(first), lambda: f"default groups {order} want {list(first)}"):
            return
        groups = [first[int(o)] for o in order]
    extra = [[b] for b in blps(u) if not any(b in g for g in groups)]
    allg = groups + extra
    want = u.average_spectra(blpair_groups=copy.deepcopy(groups), time_avg=time_avg, inplace=False)
    avail = [f"bs_cinterval_{c:05.2f}" for c in (kw["cintervals"] or [])]
    avail += ["bs_std"] * kw["normal_std"] + ["bs_robust_std"] * kw["robust_std"]
    ctx.equal("spread-of-samples", set(getattr(avg, "stats_array", {})), set(avail), "error estimates present")
    for s in range(u.Nspws):
        for g in allg:
            for pp in u.polpair_array.tolist():
                k = (s, g[0], pp)
                ctx.close("average", avg.get_data(k), want.get_data(k), rtol=1e-9, what="uniform average")
                d = np.array([b.get_data(k) for b in boots])
                cpl = lambda f: f(d.real) + 1j * f(d.imag)
                if kw["normal_std"]:
                    m = d.mean(0)
                    v = np.sqrt(((d.real - m.real) ** 2).mean(0)) + 1j * np.sqrt(((d.imag - m.imag) ** 2).mean(0))
                    ctx.close("spread-of-samples", avg.get_stats("bs_std", k), v, rtol=1e-7,
                              scale=np.abs(d).max(), what="standard deviation")
                if kw["robust_std"]:
                    ctx.close("spread-of-samples", avg.get_stats("bs_robust_std", k), cpl(biweight_std), rtol=1e-6,
                              scale=np.abs(d).max(), what="robust standard deviation")
                for c in kw["cintervals"] or []:
                    so = [np.sort(x, axis=0) for x in (d.real, d.imag)]
                    h = (N - 1) * c / 100
                    lo = int(np.floor(h))
                    hi = min(lo + 1, N - 1)
                    q = [x[lo] + (h - lo) * (x[hi] - x[lo]) for x in so]
                    ctx.close("spread-of-samples", avg.get_stats(f"bs_cinterval_{c:05.2f}", k), q[0] + 1j * q[1],
                              rtol=1e-9, scale=np.abs(d).max(), what=f"{c} percentile")
    # samples are what their weights say, differ from each other, and repeat with the seed
    if all(len(w) == len(allg) - len(extra) for w in wgts):
        cl = c11.cells(u)
        i = int(rng.integers(N))
        if not default:
            counts_ok(ctx, wgts[i], groups)
            c11.verify(ctx, u, boots[i], cl, allg, [list(x) for x in wgts[i]] + [[1.0]] * len(extra), time_avg, None, [])
    a2, b2, w2 = grouping.bootstrap_resampled_error(src, **copy.deepcopy(kw))
    ctx.check("same-seed-same-draw", repr(w2) == repr(wgts) and gen.same_state(a2.data_array, avg.data_array) is None
              and gen.same_state(getattr(a2, "stats_array", {}), getattr(avg, "stats_array", {})) is None,
              "same seed gives another result")
    ctx.sig(default, time_avg, tuple(sorted(avail)), len(groups), N)


def law(ctx):
    """Over many samples, counts follow the multinomial law and groups are drawn independently."""
    rng = ctx.rng
    u = make(rng, nspw=1, nblp=7, ntimes=1, npol=1, exact=False, cov=False, stats=False, window=False)
    b = blps(u)
    if len(b) < 6:
        return
    g = [b[:3], b[3:6]]
    N = 400
    _, _, w = grouping.bootstrap_resampled_error(u, blpair_groups=g, Nsamples=N, seed=int(rng.integers(1, 10**6)),
                                                 normal_std=False)
    X = np.array([np.concatenate(x) for x in w])
    n = 3
    sd = np.sqrt(1 - 1 / n)
    ctx.check("draw-law", (np.abs(X.mean(0) - 1) < 6 * sd / np.sqrt(N)).all(), lambda: f"mean counts {X.mean(0)}")
    ctx.check("draw-law", (np.abs(X.var(0) - sd**2) < 0.35).all(), lambda: f"variances {X.var(0)}")
    c = np.corrcoef(X.T)
    ctx.check("draw-law", (np.abs(c[:3, 3:]) < 6 / np.sqrt(N)).all(), lambda: f"groups are correlated {c[:3, 3:]}")
    ctx.check("draw-law", (np.abs(c[:3, :3][~np.eye(3, dtype=bool)] + 0.5) < 0.3).all(), lambda: f"within {c[:3, :3]}")
    r = [np.abs(np.corrcoef(X[:-1, i], X[1:, i])[0, 1]) for i in range(6)]
    ctx.check("draw-law", max(r) < 6 / np.sqrt(N), lambda: f"successive samples are correlated {r}")
    ctx.event("draws", N)
    # groups of one seeded call are independent too
    M, s0 = 150, int(rng.integers(1, 10**6))
    Y = np.array([np.concatenate(grouping.bootstrap_average_blpairs(u, copy.deepcopy(g), seed=s0 + i)[1]) for i in range(M)])
    same = (Y[:, :3] == Y[:, 3:]).all(1).mean()
    ctx.check("draw-law", same < 0.6, lambda: f"groups share their draws in {same:.0%} of seeds")
    with np.errstate(all="ignore"):
        c = np.nan_to_num(np.corrcoef(Y.T)[:3, 3:])
    ctx.check("draw-law", (np.abs(c) < 6 / np.sqrt(M)).all(), lambda: f"groups of one call are correlated {c}")
    ctx.sig("law", ctx.index)


def run(ctx):
    """Container runs store the direct result under the stated names and touch nothing else."""
    rng = ctx.rng
    path = os.path.join(ctx.tmp, "c.h5")
    psc = container.PSpecContainer(path, "rw", keep_open=bool(rng.random() < 0.5))
    orig = {}
    for g in ["g1", "g2"][: int(rng.integers(1, 3))]:
        for n in ["a", "b_x_c"][: int(rng.integers(1, 3))]:
            u = make(rng, nspw=1, nblp=int(rng.integers(2, 5)), npol=1, exact=False, redundant=True)
            psc.set_pspec(g, n, u)
            orig[g, n] = u
    names = list(orig)
    chosen = names if rng.random() < 0.5 else [names[int(rng.integers(len(names)))]]
    N, seed = int(rng.integers(2, 5)), int(rng.integers(0, 1000))
    keep = bool(rng.random() < 0.5)
    time_avg = bool(rng.random() < 0.5)
    ci = [16.0, 84.0] if rng.random() < 0.5 else None
    kw = dict(time_avg=time_avg, Nsamples=N, seed=seed, robust_std=bool(rng.random() < 0.5), cintervals=ci,
              keep_samples=keep, verbose=False)
    if len(chosen) < len(names) or rng.random() < 0.3:
        kw["spectra"] = [f"{g}/{n}" for g, n in chosen]
    how = psc
    if rng.random() < 0.5:
        psc.save() if psc.data is not None else None
        psc._close()
        how = path
    ctx.note(names=names, kw=kw, by_path=how is path)
    grouping.bootstrap_run(how, **kw)
    psc = container.PSpecContainer(path, "rw")
    want = {}
    for (g, n), u in orig.items():
        want.setdefault(g, set()).add(n)
        if (g, n) in chosen:
            want[g] |= {n + "_avg"} | ({f"{n}_bs{i}" for i in range(N)} if keep else set())
    for g in want:
        ctx.equal("container-run", set(psc.spectra(g)), want[g], f"spectra of {g}")
    for (g, n), u in orig.items():
        gen.compare_records(ctx, "container-run", gen.records(psc.get_pspec(g, n)), gen.records(u), "original spectra")
        if (g, n) not in chosen:
            continue
        a, b, w = grouping.bootstrap_resampled_error(
            u, time_avg=time_avg, Nsamples=N, seed=seed, normal_std=True, robust_std=kw["robust_std"], cintervals=ci)
        if n + "_avg" in psc.spectra(g):
            gen.compare_records(ctx, "container-run", gen.records(psc.get_pspec(g, n + "_avg")), gen.records(a), "average")
        if keep:
            for i in range(N):
                if f"{n}_bs{i}" in psc.spectra(g):
                    gen.compare_records(ctx, "container-run", gen.records(psc.get_pspec(g, f"{n}_bs{i}")),
                                        gen.records(b[i]), f"sample {i}")
    # existing results are kept unless overwriting is asked for
    kw2 = dict(kw, spectra=[f"{g}/{n}" for g, n in chosen], seed=seed + 1)
    snap = {(g, s): gen.records(psc.get_pspec(g, s)) for g in want for s in psc.spectra(g)}
    ctx.raises("container-run", lambda: grouping.bootstrap_run(psc, **kw2), what="existing results overwritten")
    for (g, s), r in snap.items():
        gen.compare_records(ctx, "container-run", gen.records(psc.get_pspec(g, s)), r, f"{g}/{s} after a refused run")
    grouping.bootstrap_run(psc, overwrite=True, **kw2)
    g, n = chosen[0]
    a, _, _ = grouping.bootstrap_resampled_error(
        orig[g, n], time_avg=time_avg, Nsamples=N, seed=seed + 1, normal_std=True, robust_std=kw["robust_std"], cintervals=ci)
    gen.compare_records(ctx, "container-run", gen.records(psc.get_pspec(g, n + "_avg")), gen.records(a), "overwritten average")
    psc._close()
    ctx.sig(len(names), len(chosen), keep, ci is None, how is path)


def refuse(ctx):
    rng = ctx.rng
    u = make(rng, nblp=2, exact=False)
    v = make(rng, nblp=2, exact=False, ntimes=u.Ntimes + 1)
    b = blps(u)
    R = lambda f, w: ctx.raises("bad-request-refused", f, what=w)
    R(lambda: grouping.bootstrap_average_blpairs(u, [[999999999999]]), "unknown baseline-pair")
    R(lambda: grouping.bootstrap_average_blpairs([u, v], [b], time_avg=False), "different numbers of times")
    R(lambda: grouping.bootstrap_average_blpairs(u, b), "flat list of groups")
    p = os.path.join(ctx.tmp, "e.h5")
    psc = container.PSpecContainer(p, "rw")
    R(lambda: grouping.bootstrap_run(psc), "empty container")
    psc.set_pspec("g", "p", u)
    R(lambda: grouping.bootstrap_run(psc, spectra=["g/q"]), "unknown spectrum")
    ctx.equal("bad-request-refused", psc.spectra("g"), ["p"], "container after refusals")


def baseline_groups(ctx):
    """Grouping baselines partitions the list; sampling draws members."""
    rng = ctx.rng
    n = int(rng.integers(2, 30))
    bls = [(int(i), int(j)) for i, j in zip(rng.permutation(100)[:n], rng.permutation(100)[:n])]
    ng = int(rng.integers(1, n + 1))
    keep, rand = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    b0 = list(bls)
    seed = int(rng.integers(1000))
    g = grouping.group_baselines(bls, ng, keep_remainder=keep, randomize=rand, seed=seed)
    ctx.note(n=n, ng=ng, keep=keep, rand=rand)
    k, rem = divmod(n, ng)
    sizes = [k] * ng
    if keep:
        sizes[-1] += rem
    flat = [b for x in g for b in x]
    ctx.equal("baseline-groups", [len(x) for x in g], sizes, "group sizes")
    ctx.check("baseline-groups", len(set(flat)) == len(flat) and set(flat) <= set(b0) and (not keep or set(flat) == set(b0)),
              "baselines lost or repeated")
    ctx.equal("input-unchanged", bls, b0, "list of baselines")
    if not rand:
        ctx.equal("baseline-groups", flat, b0[:len(flat)], "order")
    else:
        ctx.equal("baseline-groups", grouping.group_baselines(bls, ng, keep_remainder=keep, randomize=True, seed=seed), g,
                  "same seed")
    ctx.raises("bad-request-refused", lambda: grouping.group_baselines(bls, n + 1), what="more groups than baselines")
    s = grouping.sample_baselines(g, seed=seed)
    ctx.check("baseline-groups", len(s) == len(g) and all(x in g for x in s), "sample of groups")
    ctx.equal("baseline-groups", grouping.sample_baselines(g, seed=seed), s, "same seed")
    many = [x for i in range(60) for x in grouping.sample_baselines(bls, seed=None)]
    ctx.check("baseline-groups", set(many) == set(b0), "some baselines are never drawn")
    ctx.sig(n, ng, keep, rand)


CASES = [Case("single", single, 120, 1500), Case("several", several, 50, 500), Case("resampled", resampled, 90, 900),
         Case("law", law, 6, 40), Case("run", run, 16, 120), Case("refuse", refuse, 4, 10),
         Case("baseline_groups", baseline_groups, 40, 300), Case("known_zero_draw", known_zero_draw, 2, 3)]
