"""C03: results depend on the data and settings, not on what was computed before."""
import copy
import itertools

import numpy as np
from hera_pspec import PSpecData

from hv import scene, vis
from hv.core import Case, Stop

ID = "C03"
RULE = ("random sequences of setting changes, matrix requests, dataset changes and pspec calls on one object; after each step "
        "matrices, bandpowers and results are compared with an object that was just created with the same data and "
        "settings; distinct = distinct pair of consecutive operations with the weighting in use")
REQUIRE = {"same-as-fresh": 700, "pspec-same-as-fresh": 60, "settings-kept": 300, "input-unchanged": 100}
ASSUMPTIONS = ["visibility arrays are changed only through the object's own methods",
               "matrices given explicitly by the user are exempt until the cache is cleared"]


class World:
    def __init__(self, ctx):
        rng = self.rng = ctx.rng
        self.ctx = ctx
        self.sc = scene.Scene(rng, weighting="dayenu", nfreqs=int(rng.integers(6, 10)), ntimes=int(rng.integers(18, 24)),
                              flags=float(rng.choice([0, 0.05])), wgts=False, ndsets=2, npol=1, shuffle=False, with_beam=True,
                              max_spw=2, nbl=2, std=True, amp=1.0)
        sc = self.sc
        self.units = str(rng.choice(["Jy", "mK"]))
        for u in sc.dsets + sc.std:
            u.vis_units = self.units
        self.ds = PSpecData(dsets=[*sc.dsets], wgts=[None, None], labels=["a", "b"], beam=sc.beam, dsets_std=[*sc.std])
        self.st = dict(spw=(0, sc.nfreqs), nd=sc.nfreqs, taper="none", weighting="identity", sym=True, ext=(0, 0))
        self.r = {}
        self.log = []
        self.last = None

    # -- an object with no history ------------------------------------------
    def fresh(self):
        ds = PSpecData(dsets=list(self.ds.dsets), wgts=list(self.ds.wgts), labels=["a", "b"] + list(self.ds.labels[2:]),
                       beam=self.sc.beam, dsets_std=list(self.ds.dsets_std))
        st = self.st
        ds.set_spw(st["spw"], ndlys=st["nd"])
        ds.set_taper(st["taper"])
        ds.set_symmetric_taper(st["sym"])
        ds.set_filter_extension(st["ext"])
        ds.set_weighting("dayenu")
        for k, v in self.r.items():
            ds.set_r_param(k, v)
        ds.set_weighting(st["weighting"])
        return ds

    def keys(self):
        rng, sc = self.rng, self.sc
        k = []
        for _ in range(2):
            d = int(rng.integers(2))
            k.append(((d if rng.random() < 0.6 else "ab"[d]),) + ((sc.bls[int(rng.integers(len(sc.bls)))],) if rng.random() < 0.5 else
                     sc.bls[int(rng.integers(len(sc.bls)))]) + (sc.pols[0],))
        return k

    # -- operations -----------------------------------------------------------
    def op(self):
        rng, ds, sc, st = self.rng, self.ds, self.sc, self.st
        n = sc.nfreqs
        kind = str(rng.choice(["spw", "nd", "taper", "weighting", "sym", "ext", "r", "pspec", "flags", "mK", "clear", "add",
                               "rephase", "trim", "query", "other"],
                              p=[.15, .06, .08, .12, .08, .1, .08, .09, .04, .02, .02, .03, .03, .02, .05, .03]))
        if kind == "spw":
            if sum(st["ext"]):
                ds.set_filter_extension((0, 0))
                st["ext"] = (0, 0)
            a = int(rng.integers(0, n - 4))
            b = int(rng.integers(a + 4, n + 1))
            nd = None if rng.random() < 0.5 else int(rng.integers(2, b - a + 1))
            if rng.random() < 0.3:  # same width, other position
                w = st["spw"][1] - st["spw"][0]
                a = int(rng.integers(0, n - w + 1))
                b = a + w
                nd = st["nd"]
            ds.set_spw((a, b), ndlys=nd)
            st["spw"], st["nd"] = (a, b), nd or b - a
        elif kind == "nd":
            st["nd"] = int(rng.integers(2, st["spw"][1] - st["spw"][0] + 1))
            ds.set_Ndlys(st["nd"])
        elif kind == "taper":
            st["taper"] = str(rng.choice(["none", "bh", "hann", "tukey"]))
            ds.set_taper(st["taper"])
        elif kind == "weighting":
            st["weighting"] = str(rng.choice(["identity", "iC"] + (["dayenu"] if self.complete() else [])))
            ds.set_weighting(st["weighting"])
        elif kind == "sym":
            v = bool(rng.random() < 0.5)
            if v and sum(st["ext"]):
                self.ctx.raises("refused", lambda: ds.set_symmetric_taper(True), ValueError, "symmetric taper with an extension")
            else:
                ds.set_symmetric_taper(v)
                st["sym"] = v
        elif kind == "ext":
            e = (int(rng.integers(0, 3)), int(rng.integers(0, 3))) if rng.random() < 0.7 else (0, 0)
            ds.set_filter_extension(e)
            if sum(e):
                st["sym"] = False
            st["ext"] = (min(e[0], st["spw"][0]), min(e[1], n - st["spw"][1]))
        elif kind == "r":
            ds.set_weighting("dayenu")
            some = bool(self.r) and rng.random() < 0.6
            for d, bl in itertools.product(range(2), sc.bls):
                if some and rng.random() < 0.6:
                    continue
                k = (d,) + bl + (sc.pols[0],)
                v = {"filter_centers": [float(rng.uniform(-2e-7, 2e-7))], "filter_half_widths": [float(rng.uniform(1e-7, 1e-6))],
                     "filter_factors": [float(10 ** rng.uniform(-4, -1))]}
                ds.set_r_param(k, v)
                self.r[k] = v
            ds.set_weighting(st["weighting"])
        elif kind == "pspec":
            self.pspec()
        elif kind == "flags":
            a = int(rng.integers(0, n - 4))
            b = int(rng.integers(a + 4, n + 1))
            if rng.random() < 0.2:
                ds.broadcast_dset_flags(spw_ranges=[(a, b)], unflag=True)
            else:
                # new flags arrive through the object's own method
                ds.broadcast_dset_flags(spw_ranges=[(a, b)], time_thresh=float(rng.choice([0.01, 0.05, 0.2])))
        elif kind == "mK":
            ds.Jy_to_mK()
        elif kind == "clear":
            ds.clear_cache()
        elif kind == "add" and len(ds.dsets) < 4:
            u = copy.deepcopy(ds.dsets[0])
            ds.add([u], [None], labels=["c"], dsets_std=[copy.deepcopy(ds.dsets_std[0])])
            st["spw"], st["nd"] = (0, n), n
            if sum(st["ext"]):
                ds.set_filter_extension((0, 0))
            st["ext"] = (0, 0)
        elif kind == "rephase" and len({u.phase_center_catalog[0]["cat_type"] for u in ds.dsets}) == 1 \
                and ds.dsets[0].phase_center_catalog[0]["cat_type"] == "unprojected":
            ds.rephase_to_dset(int(rng.integers(2)))
        elif kind == "trim" and all(u.vis_units != "mK" for u in ds.dsets):  # pyuvdata has no such unit: conversion comes last
            ds.trim_dset_lsts(lst_tol=3)
        elif kind == "query":
            self.query(full=True)
        elif kind == "other":
            ds.units(), ds.delays(), str(ds)
        return kind

    def complete(self):
        return bool(self.r)

    def pspec(self):
        rng, sc, ctx = self.rng, self.sc, self.ctx
        old = sc.__dict__.copy()
        sc.weighting = str(rng.choice(["identity", "dayenu", "iC"]))
        sc.norm = "I"
        sc.taper = str(rng.choice(["none", "hann"]))
        sc.symmetric = bool(rng.random() < 0.5)
        sc.sampling = bool(rng.random() < 0.3)
        n = sc.nfreqs
        k = int(rng.integers(1, 3))
        repeat = self.last is not None and rng.random() < 0.5
        sc.spws = [(a, int(rng.integers(a + 4, n + 1))) for a in rng.integers(0, n - 4, k).tolist()]
        sc.nd = [int(rng.integers(2, b - a + 1)) if rng.random() < 0.4 else b - a for a, b in sc.spws]
        sc.ext = [(min(a, int(rng.integers(0, 3))), min(n - b, int(rng.integers(0, 3)))) if rng.random() < 0.3 else (0, 0)
                  for a, b in sc.spws]
        if repeat:  # the same windows again, with other settings
            sc.weighting, sc.spws, sc.nd, sc.ext = self.last
            if rng.random() < 0.3:
                sc.weighting = str(rng.choice(["identity", "dayenu", "iC"]))
        self.last = sc.weighting, sc.spws, sc.nd, sc.ext
        over = {}
        if rng.random() < 0.4:
            over = dict(store_cov=True, cov_model=str(rng.choice(["empirical", "dsets"])))
        if sc.weighting == "identity" and rng.random() < 0.3 and not any(sum(e) for e in sc.ext):
            over["exact_norm"] = True
        if rng.random() < 0.3:
            over["norm"] = "H^-1" if not over.get("exact_norm") else "I"
        over["store_window"] = True
        ctx.note(pspec=sc.describe() + str(over))
        snaps = [vis.snapshot(u) for u in self.ds.dsets]
        a = b = None
        try:
            a = sc.run(self.ds, **over)
        except scene.Refused:
            pass
        for u, s in zip(self.ds.dsets, snaps):
            ctx.equal("input-unchanged", vis.same(u, s), None, "visibilities after pspec")
        f = PSpecData(dsets=list(self.ds.dsets), wgts=list(self.ds.wgts), labels=list(self.ds.labels), beam=sc.beam,
                      dsets_std=list(self.ds.dsets_std))
        try:
            b = sc.run(f, **over)
        except scene.Refused:
            pass
        ctx.equal("pspec-same-as-fresh", a is None, b is None, "both refused or none")
        if a is not None and b is not None:
            for nm in ("data_array", "wgt_array", "integration_array", "window_function_array", "cov_array_real", "cov_array_imag"):
                if hasattr(b, nm):
                    for s in getattr(b, nm):
                        ctx.close("pspec-same-as-fresh", getattr(a, nm)[s], getattr(b, nm)[s], rtol=1e-6 if "cov" in nm else 1e-9,
                                  what=f"{nm} window {s} after {self.log[-6:]}")
        # what pspec leaves selected (documented: the last window and the given settings)
        self.r.update({k: v for k, v in (sc.r_params or {}).items()
                       if sc.weighting == "dayenu" and ((k[0] == sc.pair[0] and k[1:3] in sc.b1) or (k[0] == sc.pair[1] and k[1:3] in sc.b2))
                       and k[3] in [p for pp in sc.polpairs for p in pp]})
        ds = self.ds
        ds.set_filter_extension((0, 0))
        ds.set_symmetric_taper(sc.symmetric)
        ds.set_spw(sc.spws[-1], ndlys=sc.nd[-1])
        self.st.update(spw=sc.spws[-1], nd=sc.nd[-1], taper=sc.taper, weighting=sc.weighting, sym=sc.symmetric, ext=(0, 0))
        sc.__dict__.clear()
        sc.__dict__.update(old)

    def ok_dayenu(self, *keys):
        if self.st["weighting"] != "dayenu":
            return True
        have = {("ab".index(k[0]) if isinstance(k[0], str) else k[0],) + tuple(k[1:3]) for k in self.r if k[3] == self.sc.pols[0]}
        norm = lambda k: (("ab".index(k[0]) if isinstance(k[0], str) else k[0]),) + (tuple(k[1]) if isinstance(k[1], tuple) else k[1:3])
        return all(norm(k) in have for k in keys)

    def query(self, full=False):
        ctx, rng, st = self.ctx, self.rng, self.st
        ds, f = self.ds, self.fresh()
        for a, b in (("taper", "taper"), ("data_weighting", "weighting"), ("spw_Ndlys", "nd"), ("symmetric_taper", "sym")):
            ctx.equal("settings-kept", getattr(ds, a), st[b], f"{a} after {self.log[-4:]}")
        ctx.equal("settings-kept", (tuple(ds.spw_range), tuple(ds.filter_extension)), (st["spw"], st["ext"]), f"window after {self.log[-4:]}")
        k1, k2 = self.keys()
        asks = ["x", "w", "Y", "I", "C", "delays", "dx"]
        if self.ok_dayenu(k1, k2):
            asks += ["R", "q", "G", "H", "E", "R2"]
        n = len(asks) if full else 3
        T = ctx.rng.integers(len(np.unique(ds.dsets[0].time_array)))
        fn = {"x": lambda d: d.x(k1), "w": lambda d: d.w(k1), "Y": lambda d: d.Y(k1), "I": lambda d: d.I(k1), "dx": lambda d: d.dx(k2),
              "C": lambda d: d.C_model(k1) if rng2 < 0.5 else d.C_model(k1, model="dsets", time_index=int(T)),
              "delays": lambda d: d.delays(), "R": lambda d: d.R(k1), "R2": lambda d: d.R(k2), "q": lambda d: d.q_hat(k1, k2),
              "G": lambda d: d.get_G(k1, k2), "H": lambda d: d.get_H(k1, k2), "E": lambda d: d.get_unnormed_E(k1, k2)}
        rng2 = rng.random()
        for q in [asks[i] for i in rng.permutation(len(asks))[:n]]:
            try:
                want = fn[q](f)
            except (np.linalg.LinAlgError, NotImplementedError) as e:
                ctx.event("unavailable")
                continue
            try:
                got = fn[q](ds)
            except Exception as e:
                ctx.check("same-as-fresh", False, f"{q} after {self.log}: {type(e).__name__}: {e}", key=f"same-as-fresh:{q}")
                raise Stop() from None
            if not ctx.close("same-as-fresh", got, want, rtol=1e-7, what=f"{q}{(k1, k2)} {st} after {self.log}", key=f"same-as-fresh:{q}"):
                raise Stop()


def history(ctx):
    w = World(ctx)
    prev = "new"
    for _ in range(int(ctx.rng.integers(10, 26))):
        w.query()
        k = w.op()
        w.log.append(k)
        ctx.event(k)
        ctx.sig(prev, k, w.st["weighting"])
        prev = k
    w.query(full=True)
    ctx.sample(log=" ".join(w.log))


def estimates(ctx):
    """Estimates made one after the other on one object."""
    w = World(ctx)
    for i in range(int(ctx.rng.integers(3, 6))):
        if i and ctx.rng.random() < 0.2:
            w.log.append(w.op())
        before = w.last
        w.pspec()
        w.log.append("pspec")
        ctx.sig("estimates", w.last[0], before is not None and before[1] == w.last[1], len(w.last[1]), w.st["taper"])
    w.query(full=True)


def given(ctx):
    """Explicitly set matrices are used, until the cache is cleared."""
    w = World(ctx)
    rng, ds, sc = ctx.rng, w.ds, w.sc
    a = int(rng.integers(0, sc.nfreqs - 4))
    ds.set_spw((a, a + 4))
    w.st.update(spw=(a, a + 4), nd=4)
    d, bl, p = int(rng.integers(2)), sc.bls[0], sc.pols[0]
    key = (d, bl + (p,))
    k = (d,) + bl + (p,)
    before = ds.q_hat(k, k)
    R = rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4))
    ds.set_R({key + ("identity", "none"): R})
    F = np.exp(-2j * np.pi * np.outer(np.arange(4) - 2, np.arange(4)) / 4)
    ctx.close("given", ds.q_hat(k, k), 0.5 * np.abs(F @ R @ ds.x(k)) ** 2 + 0j, rtol=1e-9, what="q with a given R")
    ds.clear_cache()
    ctx.close("given", ds.q_hat(k, k), before, rtol=1e-9, what="q after clearing")
    C = np.diag(rng.uniform(1, 2, 4))
    ck = ((d, d), (bl + (p,), bl + (p,)), "empirical", None, False, True)
    ds.set_C({ck: C})
    ctx.close("given", ds.C_model(k), C, what="given covariance")
    ctx.close("given", ds.iC(k), np.linalg.inv(C), rtol=1e-9, what="inverse of the given covariance")
    ds.clear_cache([ck])
    ctx.close("given", ds.C_model(k), w.fresh().C_model(k), rtol=1e-9, what="covariance after clearing one key")


CASES = [Case("history", history, 80, 1500), Case("estimates", estimates, 45, 600), Case("given", given, 20, 150)]
