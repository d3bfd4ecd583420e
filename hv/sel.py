"""Random selections of a UVPSpec with an independently stated meaning."""
import numpy as np

from hv.gen import POLSTR


def blp_parts(blp):
    a = [int(blp) // 10**9 - 100, int(blp) // 10**6 % 1000 - 100,
         int(blp) // 1000 % 1000 - 100, int(blp) % 1000 - 100]
    return (a[0], a[1]), (a[2], a[3])


def spell_pp(rng, pp):
    p1, p2 = int(pp) // 100 - 20, int(pp) % 100 - 20
    opts = [int(pp), np.int32(pp), (p1, p2), (POLSTR[p1], POLSTR[p2])]
    if p1 == p2:
        opts.append(POLSTR[p1])
    return opts[rng.integers(len(opts))]


def spell_blp(rng, blp):
    b1, b2 = blp_parts(blp)
    return [int(blp), np.int64(blp), (b1, b2)][rng.integers(3)]


def rand_selection(rng, uvp, default_only_pairs, allow_tuple_spw=True):
    """(kwargs, keep(spw index, row index, polpair) -> bool, kinds)"""
    kw, kinds = {}, []
    ns, n = uvp.Nspws, uvp.Nbltpairs
    blps = list(dict.fromkeys(uvp.blpair_array.tolist()))
    bls = sorted({b // 10**6 for b in blps} | {b % 10**6 for b in blps})
    sp = set(range(ns))
    rowsel = None
    if rng.random() < 0.5:
        k = int(rng.integers(1, ns + 1))
        sp = set(rng.choice(ns, k, replace=False).tolist())
        lst = sorted(sp) if rng.random() < 0.7 else list(sp)[::-1]
        if allow_tuple_spw and rng.random() < 0.3:
            rg = uvp.get_spw_ranges()
            if len(set(rg)) == len(rg):
                kw["spws"] = [rg[i] for i in lst]
                kinds.append("spw-tuple")
        if "spws" not in kw:
            kw["spws"] = [int(i) for i in lst]
            if len(lst) == 1 and rng.random() < 0.3:
                kw["spws"] = int(lst[0])
            kinds.append("spw")
    if rng.random() < 0.35:
        k = int(rng.integers(1, len(bls) + 1))
        chosen = set(rng.choice(bls, k, replace=False).tolist())
        onlyp = default_only_pairs
        if rng.random() < 0.6:
            onlyp = bool(rng.random() < 0.5)
            kw["only_pairs_in_bls"] = onlyp
        m = np.array([((b // 10**6 in chosen) and (b % 10**6 in chosen)) if onlyp else
                      ((b // 10**6 in chosen) or (b % 10**6 in chosen))
                      for b in uvp.blpair_array.tolist()])
        lst = sorted(chosen)
        kw["bls"] = ([int(b) for b in lst] if rng.random() < 0.5 else
                     [(b // 1000 - 100, b % 1000 - 100) for b in lst])
        rowsel = m
        kinds.append(f"bls-{onlyp}")
    if rng.random() < 0.35:
        k = int(rng.integers(1, len(blps) + 1))
        chosen = rng.choice(blps, k, replace=False).tolist()
        m = np.isin(uvp.blpair_array, chosen)
        kw["blpairs"] = ([int(b) for b in chosen] if rng.random() < 0.5 else
                         [blp_parts(b) for b in chosen])
        rowsel = m if rowsel is None else (rowsel | m)
        kinds.append("blpairs")
    r = rng.random()
    if r < 0.5:
        name = "times" if r < 0.3 else "lsts"
        arr = uvp.time_avg_array if name == "times" else uvp.lst_avg_array
        u = np.unique(arr)
        chosen = rng.choice(u, int(rng.integers(1, len(u) + 1)), replace=False)
        kw[name] = chosen if rng.random() < 0.5 else [float(c) for c in chosen]
        m = np.isin(arr, chosen)
        rowsel = m if rowsel is None else (rowsel & m)
        kinds.append(name)
    pps = set(uvp.polpair_array.tolist())
    if rng.random() < 0.45:
        lst = rng.choice(sorted(pps), int(rng.integers(1, len(pps) + 1)), replace=False).tolist()
        pps = set(lst)
        # one spelling per call (the API documents a list of one kind)
        mode = rng.integers(3)
        conv = {0: int, 1: lambda p: (p // 100 - 20, p % 100 - 20),
                2: lambda p: (POLSTR[p // 100 - 20], POLSTR[p % 100 - 20])}[int(mode)]
        kw["polpairs"] = [conv(p) for p in lst]
        kinds.append("polpairs")
    if rowsel is None:
        rowsel = np.ones(n, bool)
    return kw, sp, rowsel, pps, kinds


def filtered(recs, uvp, sp, rowsel, pps):
    """The records of uvp that a selection must keep."""
    keep = set()
    for s in sp:
        fr = uvp.freq_array[uvp.spw_freq_array == s]
        nd = int(np.sum(uvp.spw_dly_array == s))
        for j in np.where(rowsel)[0]:
            for pp in pps:
                keep.add((round(float(fr[0]), 3), len(fr), nd, int(uvp.blpair_array[j]),
                          float(uvp.time_1_array[j]), float(uvp.time_2_array[j]), int(pp)))
    return {k: recs[k] for k in recs if k in keep}
