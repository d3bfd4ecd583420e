"""C18: names of antennas, baselines, baseline-pairs, polarization pairs and datasets."""
import copy

import numpy as np
from hera_pspec import PSpecData
from hera_pspec import uvpspec_utils as uu

from hv import gen, sel, vis
from hv.core import Case

ID = "C18"
RULE = ("random and extreme antenna numbers (0 to 899), every ordered pair of the twelve polarizations in integer and string spellings, both feed "
        "orientations, random weighting-parameter tables, random spectra and visibility objects asked with every spelling of a key; "
        "distinct = distinct spelling, digit pattern and kind of content")
REQUIRE = {"antennas": 4000, "conjugate": 2000, "polpair": 1500, "orientation": 100, "invalid": 60, "weights-table": 100, "groups": 60, "data-key": 150}
ASSUMPTIONS = ["antenna numbers 0 to 899"]
STR = {-1: "RR", -2: "LL", -3: "RL", -4: "LR", -5: "XX", -6: "YY", -7: "XY", -8: "YX", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
EDGE = [0, 1, 9, 10, 11, 99, 100, 101, 199, 200, 899, 898, 500]


def ants(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng, nspw=1, nblp=1, ntimes=1, npol=1)
    for _ in range(40):
        a = [int(rng.choice(EDGE)) if rng.random() < 0.4 else int(rng.integers(0, 900)) for _ in range(4)]
        if rng.random() < 0.2:
            a[rng.integers(4)] = a[rng.integers(4)]
        ty = [int, np.int32, np.int64][rng.integers(3)]
        b1, b2 = (ty(a[0]), ty(a[1])), (ty(a[2]), ty(a[3]))
        s = "".join(str(100 + x) for x in a)
        ctx.note(antennas=a, type=ty)
        ctx.equal("antennas", str(u.antnums_to_blpair((b1, b2))), s, "baseline-pair number")
        ctx.equal("antennas", str(u.antnums_to_bl(b1)), s[:6], "baseline number")
        for t in (int, np.int64):
            got = u.blpair_to_antnums(t(s))
            ctx.equal("antennas", got, ((a[0], a[1]), (a[2], a[3])), "antennas of a pair")
            ctx.equal("antennas", u.bl_to_antnums(t(s[:6])), (a[0], a[1]), "antennas of a baseline")
            ctx.equal("antennas", [int(x) for x in uu._blpair_to_bls(t(s))], [int(s[:6]), int(s[6:])], "baselines of a pair")
        ctx.equal("antennas", [int(x) for x in uu._blpair_to_bls((b1, b2))], [int(s[:6]), int(s[6:])], "baselines of a pair")
        p = [s[i:i + 3] for i in (0, 3, 6, 9)]
        n = int(s)
        ctx.equal("conjugate", uu._conj_blpair_int(n), int(p[2] + p[3] + p[0] + p[1]), "pair swapped")
        ctx.equal("conjugate", uu._conj_bl_int(int(s[:6])), int(p[1] + p[0]), "baseline reversed")
        ctx.equal("conjugate", uu._conj_blpair(n, which="first"), int(p[1] + p[0] + p[2] + p[3]), "first reversed")
        ctx.equal("conjugate", uu._conj_blpair(n, which="second"), int(p[0] + p[1] + p[3] + p[2]), "second reversed")
        ctx.equal("conjugate", (uu._conj_blpair(n, which="both"), uu._conj_blpair(n)), (int(p[1] + p[0] + p[3] + p[2]),) * 2, "both reversed")
        ctx.sig("ants", ty.__name__, tuple(x in EDGE for x in a), len(set(a)))
    ctx.raises("invalid", lambda: uu._conj_blpair(n, which="foo"), ValueError, "which='foo'")


def pols(ctx):
    rng = ctx.rng
    nums = sorted(STR)
    pairs = [(p, q) for p in nums for q in nums]
    ints, tups = [], []
    for p, q in pairs:
        n = int(f"{20 + p:02d}{20 + q:02d}")
        ints.append(n)
        tups.append((p, q))
        ctx.equal("polpair", uu.polpair_int2tuple(n if rng.random() < 0.5 else np.int32(n)), (p, q), "integer to numbers")
        ctx.equal("polpair", tuple(x.lower() for x in uu.polpair_int2tuple(n, pol_strings=True)), (STR[p].lower(), STR[q].lower()), "to strings")
        sp = lambda x: [x, STR[x], STR[x].lower() if x < 0 else STR[x]][rng.integers(3)]
        t = (sp(p), sp(q))
        ctx.equal("polpair", uu.polpair_tuple2int(t), n, f"{t} to integer")
    k = rng.permutation(len(pairs))[:20]
    ctx.equal("polpair", uu.polpair_int2tuple([ints[i] for i in k]), [tups[i] for i in k], "list of integers")
    ctx.equal("polpair", [tuple(x.lower() for x in t) for t in uu.polpair_int2tuple([ints[i] for i in k], pol_strings=True)],
              [tuple(STR[x].lower() for x in tups[i]) for i in k], "list of integers to strings")
    ctx.equal("polpair", uu.polpair_int2tuple(np.array([ints[i] for i in k])), [tups[i] for i in k], "array of integers")
    ctx.equal("polpair", uu.polpair_tuple2int([tups[i] for i in k]), [ints[i] for i in k], "list of pairs")
    ctx.equal("polpair", len(set(ints)), len(ints), "distinct pairs have distinct numbers")
    card = {"east": {"ee": -5, "nn": -6, "en": -7, "ne": -8}, "north": {"nn": -5, "ee": -6, "ne": -7, "en": -8}}
    for xo, m in card.items():
        for p in m:
            for q in m:
                n = (20 + m[p]) * 100 + 20 + m[q]
                ctx.equal("orientation", uu.polpair_tuple2int((p, q), x_orientation=xo), n, f"{p},{q} with x {xo}")
        prs = [(p, q) for p in m for q in m]
        prs = [prs[i] for i in rng.permutation(len(prs))[:5]] + [("xx", "pI"), ("ee", "xy")]
        pn = dict(m, xx=-5, pI=1, xy=-7)
        ctx.equal("orientation", uu.polpair_tuple2int(prs, x_orientation=xo), [(20 + pn[p]) * 100 + 20 + pn[q] for p, q in prs], f"list with x {xo}")
    for bad in (1111, 2516, 1526, 2511, 1125, 9999):
        ctx.raises("invalid", lambda: uu.polpair_int2tuple(bad), ValueError, f"polarization pair {bad}")
    for bad in ("1515", 1515.0, (15, 15), None):
        ctx.raises("invalid", lambda: uu.polpair_int2tuple(bad), Exception, f"polarization pair {bad!r}")
    for bad in ("xx", ("xx",), ("xx", "xx", "xx"), ("xx", "zz"), -5):
        ctx.raises("invalid", lambda: uu.polpair_tuple2int(bad), Exception, f"polarization pair {bad!r}")
    ctx.sig("pols")


def weights_table(ctx):
    rng = ctx.rng
    n = int(rng.integers(0, 8))
    kinds = []
    for _ in range(int(rng.integers(1, 4))):
        m = int(rng.integers(1, 4))
        kinds.append({"filter_centers": rng.uniform(-1e-7, 1e-7, m).tolist(), "filter_half_widths": rng.uniform(0, 1e-6, m).tolist(),
                      "filter_factors": (10.0 ** -rng.uniform(3, 12, m)).tolist()})
    if len(kinds) > 1 and rng.random() < 0.5:  # almost the same
        kinds[-1] = copy.deepcopy(kinds[0])
        kinds[-1]["filter_factors"][0] *= 1 + 1e-12
    if rng.random() < 0.5:  # the same with fields left out, added or of other lengths
        for j in range(int(rng.integers(1, 4))):
            k = copy.deepcopy(kinds[int(rng.integers(len(kinds)))])
            how = int(rng.integers(4))
            if how == 0 and len(k) > 1:
                del k[str(rng.choice(list(k)))]
            elif how == 1:
                k["notes"] = ["foo", 3, None, True, {"deep": [1.5]}][int(rng.integers(5))]
            elif how == 2:
                k = {q: (v + [0.25] if isinstance(v, list) else v) for q, v in k.items()}
            else:
                k = {q: (v[:-1] if isinstance(v, list) else v) for q, v in k.items()}
            if k not in kinds:
                kinds.append(k)
    tab = {}
    for _ in range(n):
        a, b = int(rng.integers(900)), int(rng.integers(900))
        tab[(a, b, str(rng.choice(["xx", "yy", "pI"])))] = copy.deepcopy(kinds[rng.integers(len(kinds))])
    keep = copy.deepcopy(tab)
    s = uu.compress_r_params(tab)
    ctx.check("weights-table", isinstance(s, str), "stored form is a string")
    ctx.equal("weights-table", uu.decompress_r_params(s), keep, "table after compression")
    ctx.equal("weights-table", tab, keep, "table given")
    ctx.equal("weights-table", uu.compress_r_params(uu.decompress_r_params(s)), s, "compressed twice")
    ctx.equal("weights-table", (uu.compress_r_params({}), uu.decompress_r_params(""), uu.decompress_r_params(None)), ("", {}, {}), "empty")
    u = gen.make_uvp(rng, nspw=1, nblp=2, npol=1, r_params=s)
    ctx.equal("weights-table", u.get_r_params(), keep, "table of a spectra object")
    ctx.sig("table", n, len(kinds))


def groups(ctx):
    rng = ctx.rng
    u = gen.make_uvp(rng, nblp=int(rng.integers(1, 9)))
    blps = sorted(set(u.blpair_array.tolist()))
    bls = sorted({b // 10**6 for b in blps} | {b % 10**6 for b in blps})
    for _ in range(4):
        gs, want = [], []
        only = bool(rng.random() < 0.5)
        for _ in range(int(rng.integers(1, 4))):
            g = rng.choice(bls, int(rng.integers(1, len(bls) + 1)), replace=False).tolist()
            if rng.random() < 0.3:
                g.append(899898)
            w = [b for b in blps if (all if only else any)(q in g for q in (b // 10**6, b % 10**6))]
            if w:
                want.append(w)
            gs.append(g if rng.random() < 0.5 else [(b // 1000 - 100, b % 1000 - 100) for b in g])
        got = u.get_blpair_groups_from_bl_groups(gs, only_pairs_in_bls=only)
        ctx.note(groups=gs, only=only)
        ctx.equal("groups", [[int(b) for b in g] for g in got], want, "baseline-pairs of groups of baselines")
        ctx.sig("groups", only, len(gs), len(want))


def data_keys(ctx):
    rng = ctx.rng
    ants = vis.line_array(rng, 4)
    bls = [(a, b) for i, a in enumerate(sorted(ants)) for b in sorted(ants)[i + 1:]]
    ps = [["xx", "yy"], ["pI", "pQ"], ["yy", "xx", "xy", "yx"]][rng.integers(3)]
    uvds = [vis.make_uvd(rng, ants, bls, ntimes=3, nfreqs=8, pols=ps, flags=0.2, shuffle=bool(rng.random() < 0.3)) for _ in range(3)]
    labels = ["even", "odd", "all"]
    ds = PSpecData(dsets=uvds, wgts=[None] * 3, labels=labels)
    ds.spw_range = (0, 8)
    for _ in range(10):
        i, p = int(rng.integers(3)), str(rng.choice(ps))
        b = bls[rng.integers(len(bls))]
        if rng.random() < 0.4:
            b = b[::-1]
        want = vis.x_(uvds[i], b, vis.POLNUM[p])
        ww = vis.w_(uvds[i], b, vis.POLNUM[p])
        for d in (i, np.int64(i), labels[i]):
            for q in (p, vis.POLNUM[p]):
                k = [(d, b, q), (d,) + b + (q,)][rng.integers(2)]
                ctx.note(key=k)
                ctx.close("data-key", ds.x(k), want, 1e-14, what=f"visibilities of {k}")
                ctx.close("data-key", ds.w(k), ww, 1e-14, what=f"weights of {k}")
                di, bl = ds.parse_blkey(k)
                ctx.equal("data-key", (int(di), bl), (i, b + (q,)), "parsed key")
    for bad in ("even", ("even",), ("none", bls[0], ps[0]), (7, bls[0], ps[0]), ("even", [0, 1], ps[0]), ("even", 5), ("even", bls[0], 2.5)):
        ctx.raises("invalid", lambda: ds.parse_blkey(bad) if bad[0] != 7 else ds.x(bad), Exception, f"key {bad!r}")
    ctx.sig("keys", tuple(ps))


CASES = [Case("antennas", ants, 24, 200), Case("polarizations", pols, 6, 12), Case("weights-table", weights_table, 32, 400),
         Case("groups", groups, 32, 400), Case("data-keys", data_keys, 12, 100)]
