"""C19: choosing baselines and baseline-pairs."""
import itertools
import os

import numpy as np
from hera_pspec import utils
from hera_pspec.pspecdata import validate_blpairs

from hv import gen, sel, vis
from hv.core import Case

ID = "C19"
RULE = ("random grids and lines of antennas (any numbering, jittered, rotated, with westward and southward numbering, up to kilometres), random flags, missing "
        "baselines, cuts and exclusions; every grouping and list of pairs is compared with one made from the antenna positions; "
        "distinct = distinct geometry, options and resulting number of groups")
REQUIRE = {"pairs": 600, "groups": 200, "cuts": 120, "pair-groups": 150, "flagged-antennas": 60, "vector-groups": 100, "stored-groups": 60, "files": 6,
           "validate": 60, "angles": 200}
ASSUMPTIONS = ["arrays are flat, and redundant to much better than the tolerance or not at all",
               "with permutations excluded, both datasets hold the same baselines"]


def array(rng, big=False):
    """Flat array with unambiguous redundancy; positions ENU."""
    sep = float(rng.choice([10.0, 14.6, 30.0] + ([400.0] if big else [])))
    kind = rng.choice(["line", "grid", "hex", "cross"])
    n = int(rng.integers(3, 7))
    if kind == "line":
        p = [(i, 0.0) for i in range(n)]
    elif kind == "grid":
        p = [(i, j) for i in range(3) for j in range(2)][:n]
    elif kind == "cross":
        p = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)][:n]
    else:
        p = [(i + 0.5 * (j % 2), j * 0.866) for i in range(3) for j in range(2)][:n]
    p = np.array(p, float) * sep
    nums = rng.choice(900, len(p), replace=False).tolist()
    jit = rng.uniform(-0.04, 0.04, (len(p), 2)) if rng.random() < 0.6 else 0.0
    p = p + jit
    if rng.random() < 0.4:
        rng.shuffle(nums)
    else:
        nums = sorted(nums, reverse=bool(rng.random() < 0.5))
    return {int(k): np.array([x, y, 0.0]) for k, (x, y) in zip(nums, p)}, kind


def angle(v, tol):
    """0 for (nearly) East-West, otherwise North of East in [0, 180)."""
    a = np.degrees(np.arctan2(v[1], v[0])) % 180.0
    return 0.0 if a > 90 and abs(v[1]) < tol else a


def classes(ants, tol):
    """Unordered antenna pairs grouped by vector up to sign."""
    out = []
    for a, b in itertools.combinations(sorted(ants), 2):
        v = ants[a] - ants[b]
        for g in out:
            if min(np.linalg.norm(v - g[0]), np.linalg.norm(v + g[0])) < tol / 2:
                g[1].add(frozenset((a, b)))
                break
        else:
            out.append((v, {frozenset((a, b))}))
    return out


def away(rng, vals, lo, hi, gap):
    """A cut at a distance from every value."""
    for _ in range(100):
        c = float(rng.uniform(lo, hi))
        if all(abs(c - v) > gap for v in vals):
            return c
    return lo - 1.0


def cuts(rng, cl, tol):
    """Random cuts and the classes passing them."""
    L = [np.linalg.norm(v) for v, _ in cl]
    A = [angle(v, tol) for v, _ in cl]
    kw = {}
    keep = [True] * len(cl)
    if rng.random() < 0.4:
        lo, hi = away(rng, L, 0, np.median(L), 0.5), away(rng, L, np.median(L), max(L) + 5, 0.5)
        kw["bl_len_range"] = (lo, hi)
        keep = [k and lo <= x <= hi for k, x in zip(keep, L)]
    if rng.random() < 0.4:
        lo, hi = away(rng, [a for a in A if a > 0.5], -10, 90, 2.0), away(rng, A, 30, 170, 2.0)
        if abs(lo) < 1.5:
            lo = -1.5
        kw["bl_deg_range"] = (lo, hi)
        keep = [k and lo <= x <= hi for k, x in zip(keep, A)]
    return kw, [c for c, k in zip(cl, keep) if k], L, A


def vec(ants, bl):
    return ants[bl[0]] - ants[bl[1]]


def reds(ctx):
    rng = ctx.rng
    ants, kind = array(rng)
    tol = float(rng.choice([0.5, 1.0, 2.0]))
    cl = classes(ants, tol)
    kw, left, L, A = cuts(rng, cl, tol)
    if rng.random() < 0.4:
        ew = [abs(v[0]) for v, _ in cl]
        c = away(rng, ew, 0, max(ew) + 2, 0.5)
        kw["min_EW_cut"] = c
        left = [g for g in left if abs(g[0][0]) >= c]
    nants = sorted(ants)
    xants = None
    if rng.random() < 0.4:
        xants = rng.choice(nants, int(rng.integers(1, 3)), replace=False).tolist()
        if rng.random() < 0.3:
            xants.append(9999)
    data_ants = set(nants)
    src = ants
    how = rng.choice(["dict", "uvd", "file"], p=[0.5, 0.35, 0.15])
    if how != "dict":
        use = nants if rng.random() < 0.5 else nants[:-1]
        data_ants = set(use)
        src = vis.make_uvd(rng, ants, list(itertools.combinations(use, 2)), ntimes=1, nfreqs=2)
        if rng.random() < 0.5:
            kw["pick_data_ants"] = True
        else:
            data_ants = set(nants)
        if how == "file":
            src.vis_units = "Jy"
            f = os.path.join(ctx.tmp, "a.uvh5")
            src.write_uvh5(f)
            src, kw["file_type"] = f, "uvh5"
    want = []
    for v, m in left:
        m = {p for p in m if p <= data_ants and not (xants and p & set(xants))}
        if m:
            want.append(m)
    autos = bool(rng.random() < 0.4)
    only = autos and bool(rng.random() < 0.3)
    ctx.note(ants=ants, tol=tol, kw=kw, xants=xants, how=how, autos=autos, only=only)
    r, lens, angs = utils.get_reds(src, bl_error_tol=tol, xants=xants, add_autos=autos, autos_only=only, **kw)
    r = [list(map(lambda b: (int(b[0]), int(b[1])), g)) for g in r]
    ctx.equal("groups", (len(lens), len(angs)), (len(r),) * 2, "lengths and angles listed")
    cross = r
    if autos:
        ok = sorted(data_ants - set(xants or []))
        if ok:
            ctx.equal("groups", sorted(r[0]), [(a, a) for a in ok], "auto-correlations")
            ctx.equal("groups", (lens[0], angs[0]), (0, 0), "length and angle of auto-correlations")
            cross = r[1:]
    if only:
        ctx.equal("groups", cross, [], "only auto-correlations")
        return
    got = [{frozenset(b) for b in g} for g in cross]
    ctx.check("groups", all(len(x) == len(g) for x, g in zip(got, cross)), "a baseline is listed twice in a group")
    ctx.check("groups", sorted(map(lambda g: sorted(map(sorted, g)), got)) == sorted(map(lambda g: sorted(map(sorted, g)), want)),
              lambda: f"groups {cross} want {want}")
    off = len(r) - len(cross)
    for g, l, a in zip(cross, lens[off:], angs[off:]):
        vs = [vec(ants, b) for b in g]
        ctx.check("groups", all(np.linalg.norm(v - vs[0]) < tol for v in vs), "baselines of a group point the same way")
        ctx.check("cuts", abs(l - np.linalg.norm(vs[0])) < 0.2, f"length {l} of {g}")
        ctx.check("cuts", abs(a - angle(vs[0], tol)) < 1.2, f"angle {a} of {g}, want {angle(vs[0], tol)}")
    ll = [float(x) for x in lens]
    ctx.check("groups", all(x <= y + 1.0 * tol for x, y in zip(ll, ll[1:])), f"groups in order of length {ll}")
    ctx.sig(kind, tuple(sorted(kw)), len(r), xants is not None, autos, how)


def angles(ctx):
    """Length and angle of single vectors; a baseline and its reverse agree."""
    rng = ctx.rng
    tol = float(rng.choice([0.5, 1.0, 2.0]))
    n = 20
    v = rng.normal(size=(n, 3)) * rng.choice([10, 100, 1000])
    if rng.random() < 0.5:
        v = v[:, :2]
    k = rng.integers(0, n, 8)
    v[k, 1] = rng.uniform(-tol, tol, 8) * 0.99
    v[k[:3], 1] = 0.0
    l, a = utils.get_bl_lens_angs(v if rng.random() < 0.5 else list(v), bl_error_tol=tol)
    l2, a2 = utils.get_bl_lens_angs(-v, bl_error_tol=tol)
    ctx.note(v=v, tol=tol)
    ctx.close_rel("angles", l, np.sqrt((v**2).sum(1)), 1e-12, what="lengths")
    ctx.close("angles", a, [angle(x, tol) for x in v], 1e-12, atol=1e-9, what="angles", scale=180)
    ctx.close("angles", a2, a, 1e-12, atol=1e-9, what="angles of the reversed baselines", scale=180)
    ctx.close("angles", l2, l, 1e-12, what="lengths of the reversed baselines")
    for i in range(n):
        ctx.check("angles", 0 <= a[i] < 180 or v[i, 1] == 0, f"angle {a[i]} out of range")
    ctx.sig("angles", tol, v.shape[1])


def want_pairs(bls, noauto, nocross, noperm):
    """Ordered pairs (or unordered if permutations are excluded) of a list of different baselines."""
    out = []
    for i, b in enumerate(bls):
        for j, c in enumerate(bls):
            if (i == j and noauto) or (i != j and nocross):
                continue
            if i == j or not noperm or i < j:
                out.append((b, c))
    return out


def pairs(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    pool = list(itertools.permutations(range(6), 2)) + [(i, i) for i in range(6)]
    bls = [pool[i] for i in rng.choice(len(pool), n, replace=False)]
    noauto = bool(rng.random() < 0.4)
    nocross = bool(rng.random() < 0.3) and not noauto
    noperm = bool(rng.random() < 0.5)
    kw = dict(exclude_auto_bls=noauto, exclude_cross_bls=nocross, exclude_permutations=noperm)
    ctx.note(bls=bls, **kw)
    b1, b2, bp = utils.construct_blpairs(list(bls), **kw)
    want = want_pairs(bls, noauto, nocross, noperm)
    ctx.equal("pairs", (b1, b2), ([p[0] for p in bp], [p[1] for p in bp]), "separate lists are those of the pairs")
    ctx.equal("pairs", sorted(bp), sorted(want), "pairs")
    ctx.equal("pairs", len(bp), len(want), "number of pairs")
    for m in (1, 2, 3, 100):
        g1, g2, g = utils.construct_blpairs(list(bls), group=True, Nblps_per_group=m, **kw)
        ctx.equal("pairs", [x for y in g for x in y], bp, "grouped pairs")
        ctx.equal("pairs", ([x for y in g1 for x in y], [x for y in g2 for x in y]), (b1, b2), "grouped lists")
        sizes = [len(y) for y in g]
        ctx.equal("pairs", sizes, [m] * (len(bp) // m) + ([len(bp) % m] if len(bp) % m else []), "sizes of groups")
        ctx.equal("pairs", ([len(y) for y in g1], [len(y) for y in g2]), (sizes, sizes), "sizes of groups")
    ctx.raises("pairs", lambda: utils.construct_blpairs(bls, exclude_auto_bls=True, exclude_cross_bls=True), AssertionError, "no pairs at all")
    ctx.raises("pairs", lambda: utils.construct_blpairs([101102, 102103]), AssertionError, "integers")
    ctx.sig("pairs", n, noauto, nocross, noperm)


def canon(p):
    """A pair irrespective of the common orientation of its baselines."""
    return min(tuple(p), (p[0][::-1], p[1][::-1]))


def calc(ctx):
    rng = ctx.rng
    ants, kind = array(rng)
    tol = float(rng.choice([0.5, 1.0]))
    nums = sorted(ants)
    allbl = list(itertools.combinations(nums, 2))
    inca = bool(rng.random() < 0.3)
    if inca or rng.random() < 0.2:
        allbl = allbl + [(a, a) for a in nums]
    noauto = bool(rng.random() < 0.3)
    nocross = bool(rng.random() < 0.2) and not noauto
    noperm = bool(rng.random() < 0.5)
    filt = bool(rng.random() < 0.75)
    thresh = float(rng.choice([0.95, 0.5]))

    def data(bls):
        bls = [b if rng.random() < 0.7 else b[::-1] for b in bls]
        u = vis.make_uvd(rng, ants, bls, ntimes=2, nfreqs=10, pols=["xx", "yy"][:int(rng.integers(1, 3))], shuffle=bool(rng.random() < 0.3))
        sick = set(rng.choice(nums, int(rng.integers(0, 2)), replace=False).tolist())
        frac = {}
        for b in bls:
            r, _ = vis.rows(u, b)
            f = np.zeros((r.size,) + u.flag_array.shape[1:], bool)
            q = 1.0 if sick & set(b) else float(rng.choice([0.0, 0.3, 0.7, 0.97], p=[0.6, 0.2, 0.1, 0.1]))
            f[:] = rng.random(f.shape) < q
            u.flag_array[r] = f
            frac[b] = f.mean()
        return u, bls, frac

    drop = lambda: [b for b in allbl if rng.random() < 0.85] or allbl
    u1, l1, f1 = data(drop() if filt and rng.random() < 0.5 else allbl)
    if rng.random() < 0.4:
        u2, l2, f2 = u1, l1, f1
    elif noperm:
        u2, l2, f2 = data(l1)
    else:
        u2, l2, f2 = data(drop() if filt and rng.random() < 0.5 else allbl)

    def bad(frac):
        good = set()
        for b, f in frac.items():
            if (b[0] == b[1] and not inca) or not f < thresh - 1e-12:
                continue
            good |= set(b)
        return sorted(set(nums) - good)

    hand = rng.choice(nums, 1).tolist() if rng.random() < 0.3 else None
    x1, x2 = (bad(f1), bad(f2)) if filt else ([], [])
    cl = classes(ants, tol)
    kw, left, L, A = cuts(rng, cl, tol)
    ngrp = int(rng.integers(1, 4)) if rng.random() < 0.3 else None
    ctx.note(ants=ants, bls1=l1, bls2=l2, cuts=kw, filt=filt, inca=inca, noauto=noauto, nocross=nocross, noperm=noperm, hand=hand, thresh=thresh)
    snaps = vis.snapshot(u1), vis.snapshot(u2)
    args = dict(bl_tol=tol, filter_blpairs=filt, xant_flag_thresh=thresh, exclude_auto_bls=noauto, exclude_cross_bls=nocross,
                exclude_permutations=noperm, xants=list(hand) if hand else None, include_autocorrs=inca, **kw)
    b1, b2, bp, g1, g2, ri, rl, ra = utils.calc_blpair_reds(u1, u2, extra_info=True, **args)
    ctx.check("pair-groups", vis.same(u1, snaps[0]) is None and vis.same(u2, snaps[1]) is None, "data changed")
    ctx.equal("flagged-antennas", (sorted(set(g1)), sorted(set(g2))), (sorted(set(x1) | set(hand or [])), sorted(set(x2) | set(hand or []))), "flagged antennas")
    ctx.equal("pair-groups", (b1, b2), ([p[0] for p in bp], [p[1] for p in bp]), "separate lists are those of the pairs")
    ctx.equal("pair-groups", len(ri), len(bp), "group of every pair")
    badset = set(x1) | set(x2) | set(hand or [])
    has = lambda b, l: b in l or b[::-1] in l
    groups = [sorted(tuple(sorted(p)) for p in m) for _, m in left]
    want = []
    for (v0, _), m in zip(left, groups):
        m = [b if np.linalg.norm(vec(ants, b) - v0) < tol else b[::-1] for b in m if not badset & set(b)]
        want += want_pairs(m, noauto, nocross, False)
    if inca:
        want += want_pairs([(a, a) for a in nums if a not in badset], noauto, nocross, False)
    if filt:
        want = [p for p in want if has(p[0], l1) and has(p[1], l2)]
    cg, cw = [canon(p) for p in bp], {canon(p) for p in want}
    ctx.check("pair-groups", len(set(cg)) == len(cg), lambda: f"a pair occurs twice: {bp}")
    if noperm:
        sw = lambda p: min(canon(p), canon(p[::-1]))
        cg, cw = [sw(p) for p in bp], {sw(p) for p in want}
        ctx.check("pair-groups", len(set(cg)) == len(cg), lambda: f"a pair occurs in both orders: {bp}")
    ctx.check("pair-groups", set(cg) == cw, lambda: f"missing {sorted(cw - set(cg))[:4]} extra {sorted(set(cg) - cw)[:4]}")
    for p, i in zip(bp, ri):
        v1, v2 = vec(ants, p[0]), vec(ants, p[1])
        ctx.check("pair-groups", np.linalg.norm(v1 - v2) < tol, f"pair {p} is not redundant")
        ctx.check("pair-groups", abs(rl[i] - np.linalg.norm(v1)) < 0.2 and abs(ra[i] - angle(v1, tol)) < 1.2, f"length and angle of {p}: {rl[i]}, {ra[i]}")
    if ngrp:
        c1, c2, cp, _, _, ci, _, _ = utils.calc_blpair_reds(u1, u2, extra_info=True, Nblps_per_group=ngrp, **args)
        fl = lambda x: [z for y in x for z in y]
        ctx.equal("pair-groups", (fl(c1), fl(c2), fl(cp), fl(ci)), (b1, b2, bp, ri), "pairs in groups")
        ctx.check("pair-groups", all(len(set(y)) == 1 and len(y) <= ngrp for y in ci), "groups mix baseline types or are too large")
        tot = sum(-(-ri.count(i) // ngrp) for i in set(ri))
        ctx.equal("pair-groups", len(cp), tot, "number of groups")
    five = utils.calc_blpair_reds(u1, u2, **args)
    ctx.equal("pair-groups", (len(five), five[2]), (5, bp), "without extra information")
    ctx.sig(kind, filt, inca, noauto, nocross, noperm, tuple(sorted(kw)), hand is not None, ngrp, min(len(bp), 6))


def blvec(ctx):
    """Grouping of a table of baseline vectors, and of the baseline-pairs of a spectra object."""
    rng = ctx.rng
    tol = float(rng.choice([0.5, 1.0, 2.0]))
    match = bool(rng.random() < 0.4)
    if rng.random() < 0.35:
        ants, _ = array(rng)
        u = gen.make_uvp(rng, antenna=ants, nspw=1, nblp=int(rng.integers(2, 8)), npol=1)
        src = u
        V = {}
        for b in u.blpair_array.tolist():
            p, q = sel.blp_parts(b)
            V[(p, q)] = (vec(ants, p) + vec(ants, q))[:2] / 2
        slack = 0.05
    else:
        scale = float(rng.choice([20, 200, 2000]))
        n = int(rng.integers(3, 16))
        base = rng.uniform(-scale, scale, (max(n // 3, 1), 2))
        V = {}
        for i in range(n):
            v = base[rng.integers(len(base))] + rng.uniform(-1, 1, 2) * tol * rng.choice([0.1, 0.6])
            if rng.random() < 0.3:  # the same length in another direction
                t = rng.uniform(0, 2 * np.pi)
                v = np.linalg.norm(v) * np.array([np.cos(t), np.sin(t)])
            V[(i, i + 1)] = v
        src = {k: (np.append(v, 0.3) if rng.random() < 0.5 else v) for k, v in V.items()}
        slack = 1e-9
    ctx.note(vectors=V, tol=tol, match=match)
    g, ln, an, tg = utils.get_blvec_reds(src, bl_error_tol=tol, match_bl_lens=match)
    ctx.equal("vector-groups", (len(ln), len(an), len(tg)), (len(g),) * 3, "lists of the same length")
    flat = [m for x in g for m in x]
    ctx.equal("vector-groups", (sorted(flat), len(flat)), (sorted(V), len(V)), "every baseline in one group")
    d = (lambda v, w: abs(np.linalg.norm(v) - np.linalg.norm(w))) if match else (lambda v, w: np.max(np.abs(v - w)))
    first = [V[x[0]] for x in g]
    pos = {k: i for i, k in enumerate(V)}
    for x, v, l, a, t in zip(g, first, ln, an, tg):
        ctx.check("vector-groups", all(d(V[m], v) <= tol + slack for m in x), f"group {x} is wider than the tolerance")
        ctx.check("vector-groups", [pos[m] for m in x] == sorted(pos[m] for m in x), "order of members")
        ctx.check("vector-groups", abs(l - np.linalg.norm(v)) < slack + 1e-9, f"length {l}")
        da = abs((a - np.degrees(np.arctan2(v[1], v[0]))) % 180)
        ctx.check("vector-groups", l < 1 or min(da, 180 - da) < max(0.01, slack / max(l, 1) * 60) and -1e-9 <= a <= 180, f"angle {a}")
        tl, ta = (float(z) for z in t.split("_"))
        ctx.check("vector-groups", abs(tl - l) <= 0.5 + 1e-6 and abs(ta - a) <= 0.5 + 1e-6, f"tag {t} of {l}, {a}")
    for i in range(len(g)):
        for j in range(i):
            e, lt = (i, j) if pos[g[i][0]] < pos[g[j][0]] else (j, i)
            ctx.check("vector-groups", all(d(V[m], first[e]) > tol - slack for m in g[lt]), "a baseline belongs to an earlier group")
    rl = [round(x) for x in ln]
    ctx.check("vector-groups", all(x <= y + 1e-9 or abs(p - q) < 1e-6 or slack > 0.01 and abs(p - q) < 0.2
                                   for x, y, p, q in zip(rl, rl[1:], ln, ln[1:])), f"ascending length (to 1 m): {ln}")
    ctx.sig("vec", src is not V and not isinstance(src, dict), match, tol, len(g))


def stored(ctx):
    """Redundant groups of the baselines and baseline-pairs a spectra object holds."""
    rng = ctx.rng
    ants, kind = array(rng)
    u = gen.make_uvp(rng, antenna=ants, nspw=1, nblp=int(rng.integers(1, 9)), npol=1)
    tl, ta = float(rng.choice([0.5, 1.0])), float(rng.choice([1.0, 3.0, 20.0, 75.0]))
    bls = [int(b) for b in u.bl_array]
    an = lambda b: (b // 1000 - 100, b % 1000 - 100)
    V = {b: vec(ants, an(b)) for b in bls}

    def cls(b):
        v = V[b]
        return [k for k in bls if abs(np.linalg.norm(V[k]) - np.linalg.norm(v)) < tl and
                (np.linalg.norm(v) < tl or abs(angle(V[k], tl) - angle(v, tl)) < ta)]
    # unambiguous geometries only: differences well away from the tolerances
    amb = False
    for b, c in itertools.combinations(bls, 2):
        dl, da = abs(np.linalg.norm(V[b]) - np.linalg.norm(V[c])), abs(angle(V[b], tl) - angle(V[c], tl))
        amb |= (0.3 < dl < 3 and dl > tl / 2) or (abs(da - ta) < max(0.3 * min(ta, 3), 0.02 * ta) and dl < 3)
    ctx.note(ants=ants, bls=bls, tol=(tl, ta))
    got, ln, ang = u.get_red_bls(bl_len_tol=tl, bl_ang_tol=ta)
    flat = [int(x) for g in got for x in g]
    ctx.equal("stored-groups", (sorted(flat), len(flat)), (sorted(bls), len(bls)), "every baseline in one group")
    if not amb:
        want = []
        for b in bls:
            if not any(b in w for w in want):
                want.append(sorted(c for c in cls(b) if not any(c in w for w in want)))
        ctx.equal("stored-groups", sorted(sorted(int(x) for x in g) for g in got), sorted(want), "groups of baselines")
        for g, l, a in zip(got, ln, ang):
            ctx.close("stored-groups", l, np.mean([np.linalg.norm(V[int(b)]) for b in g]), 0, 0.02, what="mean length")
            if l > tl:  # auto-correlations have no direction
                ctx.close("stored-groups", a, np.mean([angle(V[int(b)], tl) for b in g]), 0, 0.5, what="mean angle")
    gp, lp, ap = u.get_red_blpairs(bl_len_tol=tl, bl_ang_tol=ta)
    ctx.close("stored-groups", lp, ln, 1e-12, what="lengths of groups of pairs")
    ctx.close("stored-groups", ap, ang, 1e-12, what="angles of groups of pairs")
    grp = {int(x): i for i, g in enumerate(got) for x in g}
    want = [[] for _ in got]
    for b in dict.fromkeys(u.blpair_array.tolist()):
        p, q = b // 10**6, b % 10**6
        if grp[p] == grp[q]:
            want[grp[p]].append(b)
    ctx.equal("stored-groups", [sorted(int(x) for x in g) for g in gp], [sorted(w) for w in want], "groups of baseline-pairs")
    ctx.sig("stored", kind, amb, len(got))


def validate(ctx):
    """Pairs that are not redundant are reported, and only those."""
    import contextlib
    import io
    rng = ctx.rng
    ants, kind = array(rng)
    nums = sorted(ants)
    bls = list(itertools.combinations(nums, 2))
    u1 = vis.make_uvd(rng, ants, bls, ntimes=1, nfreqs=2)
    u2 = vis.make_uvd(rng, ants, bls, ntimes=1, nfreqs=2)
    tol = float(rng.choice([0.5, 1.0, 3.0]))
    allb = bls + [b[::-1] for b in bls]
    bp = [(allb[rng.integers(len(allb))], allb[rng.integers(len(allb))]) for _ in range(8)]
    arg, i = [], 0
    while i < len(bp):
        m = int(rng.integers(1, 4))
        arg += [bp[i]] if m == 1 else [bp[i:i + m]]
        i += m
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        validate_blpairs(arg, u1, u2, baseline_tol=tol)
    for p in set(bp):
        d = np.linalg.norm(vec(ants, p[0]) - vec(ants, p[1]))
        if abs(d - tol) > 0.02:
            ctx.equal("validate", (f"blpair {p} " in out.getvalue()), d > tol, f"report of {p} at distance {d}")
    with contextlib.redirect_stdout(out2 := io.StringIO()):
        validate_blpairs(arg, u1, u2, baseline_tol=tol, verbose=False)
    ctx.equal("validate", out2.getvalue(), "", "silent")
    # the two datasets need not hold the same antennas
    k1, k2 = (sorted(rng.permutation(nums)[: int(rng.integers(2, len(nums) + 1))].tolist()) for _ in range(2))
    v1, v2 = (vis.make_uvd(rng, ants, list(itertools.combinations(k, 2)), ntimes=1, nfreqs=2) for k in (k1, k2))
    bp = [tuple(tuple(int(x) for x in rng.permutation(k)[:2]) for k in (k1, k2)) for _ in range(6)]
    with contextlib.redirect_stdout(out3 := io.StringIO()):
        validate_blpairs(bp, v1, v2, baseline_tol=tol)
    for p in set(bp):
        d = np.linalg.norm(vec(ants, p[0]) - vec(ants, p[1]))
        if abs(d - tol) > 0.02:
            ctx.equal("validate", (f"blpair {p} " in out3.getvalue()), d > tol, f"report of {p} at distance {d}, datasets of {k1} and {k2}")
    moved = dict(ants)
    a = nums[rng.integers(len(nums))]
    moved[a] = moved[a] + [tol * 1.5, 0, 0]
    u3 = vis.make_uvd(rng, moved, bls, ntimes=1, nfreqs=2)
    ctx.raises("validate", lambda: validate_blpairs(arg, u1, u3, baseline_tol=tol), AssertionError, "antennas moved")
    ctx.raises("validate", lambda: utils.calc_blpair_reds(u1, u3, bl_tol=tol), AssertionError, "antennas moved")
    ctx.raises("validate", lambda: validate_blpairs(arg, u1, "u2"), TypeError, "not data")
    ctx.sig("validate", kind, tol)


def files(ctx):
    rng = ctx.rng
    ants, kind = array(rng)
    nums = sorted(ants)
    bls = list(itertools.combinations(nums, 2))
    u = vis.make_uvd(rng, ants, bls + [(a, a) for a in nums], ntimes=1, nfreqs=2)
    u.data_array = np.abs(u.data_array).astype(complex)
    u.vis_units = "Jy"
    have, dens = set(), float(rng.choice([0.15, 0.3, 0.6]))
    for t in ("12345", "12346", "skip7"):
        for p in ("xx", "yy"):
            for g in ("even", "odd"):
                if rng.random() < dens:
                    u.write_uvh5(os.path.join(ctx.tmp, f"zen.{g}.{t}.{p}.uvh5"))
                    have.add((t, p, g))
    pp = [[("xx", "xx"), ("yy", "yy"), ("xx", "yy"), ("pI", "pI")][i] for i in rng.integers(0, 4, 4)]
    gg = [[("even", "odd"), ("even", "even"), ("odd", "odd"), ("odd", "even")][i] for i in rng.integers(0, 4, 4)]
    P, Gs = {x for p in pp for x in p}, {x for p in gg for x in p}
    seen = {(p, g) for t, p, g in have if p in P and g in Gs}
    if not seen:
        return
    excl = ["skip7"] if rng.random() < 0.3 else None
    if excl and not any(t != "skip7" for t, p, g in have if (p, g) in seen):
        return
    xants = rng.choice(nums, 1).tolist() if rng.random() < 0.4 else None
    noauto, noperm, inca = (bool(rng.random() < 0.5) for _ in range(3))
    cl = classes(ants, 1.0)
    kw, left, L, A = cuts(rng, cl, 1.0)
    tm = os.path.join(ctx.tmp, "zen.{group}.*.{pol}.uvh5")
    ctx.note(have=sorted(have), pols=pp, groups=gg, xants=xants, cuts=kw, exclude=excl)
    got = utils.config_pspec_blpairs([tm] if rng.random() < 0.5 else tm, pp, gg, exclude_auto_bls=noauto, exclude_permutations=noperm, xants=xants,
                                     exclude_patterns=excl, include_autocorrs=inca, file_type="uvh5", verbose=False, **kw)
    ctx.equal("files", len(utils.config_pspec_blpairs(tm, pp, gg, exclude_patterns=["nosuch", "zen."], file_type="uvh5", verbose=bool(rng.random() < 0.5))), 0,
              "every file excluded")
    ctx.raises("files", lambda: utils.config_pspec_blpairs(tm, pp, gg + gg[:1], file_type="uvh5", verbose=False), AssertionError, "lists of different lengths")
    want = {(tuple(g), tuple(p)) for p, g in zip(pp, gg) if (p[0], g[0]) in seen and (p[1], g[1]) in seen}
    ctx.equal("files", set(got), want, "pairs of polarizations and groups with data")
    ps = []
    for v0, m in left:
        m = [tuple(sorted(q)) for q in m if not q & set(xants or [])]
        m = [b if np.linalg.norm(vec(ants, b) - v0) < 1.0 else b[::-1] for b in sorted(m)]
        ps += want_pairs(m, noauto, False, False)
    if inca:
        ps += want_pairs([(a, a) for a in nums if a not in (xants or [])], noauto, False, False)
    f = (lambda p: min(canon(p), canon(p[::-1]))) if noperm else canon
    for k, v in got.items():
        ctx.check("files", {f(p) for p in v} == {f(p) for p in ps} and len({f(p) for p in v}) == len(v), lambda: f"pairs of {k}: {v}")
    ctx.sig("files", len(got), excl is not None, xants is not None)


CASES = [Case("reds", reds, 80, 1200), Case("angles", angles, 16, 300), Case("pairs", pairs, 60, 600), Case("calc", calc, 64, 900),
         Case("blvec", blvec, 60, 900), Case("stored", stored, 40, 600), Case("validate", validate, 16, 200), Case("files", files, 24, 160)]
