"""Random power spectrum estimations: datasets, settings, and what the definitions say must come out."""
import copy

import numpy as np
import uvtools.dspec as dspec
from hera_pspec import PSpecData, pspecbeam

from hv import oqe, vis

POLS = ["xx", "yy", "xy", "yx", "pI", "pQ"]
TAPERS = ["none", "bh", "hann", "hamming", "tukey", "bh7"]


class Refused(Exception):
    """pspec declined: so little is unflagged that no single normalization exists."""


class Beam(pspecbeam.PSpecBeamFromArray):
    """Beam with a pixelized response, as needed by the exact normalization."""

    def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
        if isinstance(pol, str):
            pol = vis.POLNUM[pol]
        npix, nside = 12 * 4, 2
        th = np.linspace(0.0, 1.0, npix)
        w = (0.3 + 0.02 * abs(pol)) * (150e6 / np.asarray(freq))[:, None]
        res = np.exp(-th**2 / 2 / w**2)
        return res, np.pi / (3 * nside**2) * res.sum(1), nside


def beam(rng, pols, exact=False, f0=None, f1=None):
    f = np.linspace(100e6, 200e6, 60)
    O, OO = {}, {}
    for p in pols:
        a = rng.uniform(0.1, 0.5)
        O[p] = a * (f / 150e6) ** rng.uniform(-2, 0)
        OO[p] = a * rng.uniform(0.3, 0.6) * (f / 150e6) ** rng.uniform(-2, 0)
    return (Beam if exact else pspecbeam.PSpecBeamFromArray)(O, OO, f)


class Scene:
    """One call of pspec with random datasets; .want(spw, i, polpair) is the independent estimate."""

    def __init__(self, rng, weighting="identity", nfreqs=None, ntimes=None, flags=None, npol=None, norm="I",
                 with_beam=None, exact_norm=False, ext=False, nsamples=True, ndsets=None, shuffle=None, amp=1.0,
                 max_spw=3, nbl=None, taper=None, mixed_pol=True, wgts=None, std=False, autos=False, cov=False, dynamic=False):
        self.rng = rng
        nfreqs = int(rng.integers(5, 15)) if nfreqs is None else nfreqs
        if weighting == "iC" and ntimes is None:
            ntimes = nfreqs * 2 + int(rng.integers(2, 8))
        ntimes = int(rng.integers(1, 6)) if ntimes is None else ntimes
        npol = int(rng.integers(1, 4)) if npol is None else npol
        shuffle = bool(rng.random() < 0.3) if shuffle is None else shuffle
        self.with_beam = bool(rng.random() < 0.4) if with_beam is None else with_beam
        pols = [POLS[:4], POLS[4:]][int(rng.random() < 0.3)]
        pols = [pols[i] for i in rng.permutation(len(pols))][:npol]
        if ("xy" in pols) != ("yx" in pols):  # a reversed baseline swaps the two
            pols.append("yx" if "xy" in pols else "xy")
        self.pols = pols
        ants = vis.line_array(rng, int(rng.integers(3, 6)))
        ks = list(ants)
        # baselines in both orientations; only some are redundant
        allbl = [(a, b) for i, a in enumerate(ks) for b in ks[i + 1:]]
        bls = [allbl[i] if rng.random() < 0.7 else allbl[i][::-1] for i in rng.permutation(len(allbl))]
        bls = bls[: int(rng.integers(2, 6))]
        self.bls = bls
        if autos:
            bls = bls + [(a, a) for a in ks]
        self.ants = ants
        nd = int(rng.integers(1, 4)) if ndsets is None else ndsets
        flags = float(rng.choice([0, 0, 0.1, 0.3])) if flags is None else flags
        f0, df = float(rng.uniform(120e6, 170e6)), float(rng.uniform(5e4, 4e5))
        self.dsets, self.std, self.wg = [], [], []
        # the same polarizations have other names when the feeds' orientation is known
        self.xo = [None, "east", "north"][int(rng.choice(3, p=[0.6, 0.2, 0.2]))]
        self.spell = [int(rng.integers(5)) for _ in range(8)] if rng.random() < 0.5 else [0] * 8
        for d in range(nd):
            order = [pols[i] for i in rng.permutation(len(pols))]
            u = vis.make_uvd(rng, ants, [bls[i] for i in rng.permutation(len(bls))], ntimes, nfreqs, order, f0, df,
                             t0=2458000.2 + (0.1 / 86400 * d if rng.random() < 0.5 else 0),
                             flags=flags, nsamples=nsamples, shuffle=shuffle, amp=amp,
                             dt=10.7, integ=float(rng.uniform(5, 20)), xorient=self.xo)
            # every row has its own integration time
            u.integration_time = u.integration_time * rng.uniform(0.7, 1.4, u.Nblts)
            # some channels flagged at all times
            if flags and rng.random() < 0.6:
                for bl in bls:
                    r, _ = vis.rows(u, bl)
                    ch = rng.random(nfreqs) < 0.15
                    u.flag_array[np.ix_(r, np.where(ch)[0])] = True
            if autos:
                for a in ks:
                    r, _ = vis.rows(u, (a, a))
                    u.data_array[r] = amp * (1 + rng.random(u.data_array[r].shape))
            self.dsets.append(u)
            s = None
            if std:
                s = u.copy()
                s.data_array = amp * (0.5 + rng.random(u.data_array.shape)) + 0j
            self.std.append(s)
            w = None
            if wgts if wgts is not None else rng.random() < 0.15:
                w = u.copy()
                w.data_array = (rng.random(u.data_array.shape) < 0.85).astype(complex)
            self.wg.append(w)
        if dynamic:  # channels of very different strength
            for u in self.dsets:
                u.data_array = u.data_array * 10 ** rng.uniform(-1, 1, nfreqs)[None, :, None]
        if rng.random() < 0.2:  # LSTs wrap around
            u = self.dsets[0]
            sh = (2 * np.pi - u.lst_array[u.time_array == np.unique(u.time_array)[ntimes // 2]][0]) / (2 * np.pi) * 0.99726957
            for u in self.dsets + [x for x in self.std + self.wg if x is not None]:
                u.time_array = u.time_array + sh
                u.set_lsts_from_time_array()
        if rng.random() < 0.2:  # single precision, as in most files
            for u in self.dsets + [x for x in self.std if x is not None]:
                u.data_array = u.data_array.astype(np.complex64)
        self.f0, self.df, self.nfreqs, self.ntimes = f0, df, nfreqs, ntimes
        self.beam = beam(rng, pols, exact_norm) if (self.with_beam or exact_norm) else None
        self.labels = None if rng.random() < 0.5 else [f"d{'abc'[int(rng.integers(3))]}" for _ in range(nd)]
        mk = dict(dsets=self.dsets, wgts=self.wg, labels=self.labels, beam=self.beam)
        if std:
            mk["dsets_std"] = self.std
        self.mk = mk
        # what to estimate
        self.pair = (int(rng.integers(nd)), int(rng.integers(nd)))
        nb = int(rng.integers(1, 5)) if nbl is None else nbl
        seen = set()
        self.b1, self.b2 = [], []
        for _ in range(nb):
            p = tuple(self.bls[int(rng.integers(len(self.bls)))] for _ in range(2))
            p = tuple(q if rng.random() < 0.7 else q[::-1] for q in p)
            if p not in seen:
                seen.add(p)
                self.b1.append(p[0])
                self.b2.append(p[1])
        pp = [(p, p) for p in pols]
        if self.beam is None and mixed_pol:
            pp += [(p, q) for p in pols for q in pols if p != q]
        pp = [pp[i] for i in rng.permutation(len(pp))][: int(rng.integers(1, 4))]
        self.polpairs = pp
        ns = int(rng.integers(1, max_spw + 1))
        self.spws, self.nd = [], []
        lo = 2 if weighting != "iC" else 3
        for _ in range(ns):
            a = int(rng.integers(0, nfreqs - lo))
            b = int(rng.integers(a + lo, nfreqs + 1))
            self.spws.append((a, b))
            self.nd.append(b - a if rng.random() < 0.6 else int(rng.integers(2, b - a + 1)))
        if rng.random() < 0.15:
            self.spws, self.nd = [(0, nfreqs)], [nfreqs]
        self.taper = (str(rng.choice(TAPERS)) if rng.random() < 0.6 else "none") if taper is None else taper
        if min(b - a for a, b in self.spws) < 4:
            self.taper = "none"
        self.weighting, self.norm, self.exact = weighting, norm, exact_norm
        self.symmetric = bool(rng.random() < 0.6)
        self.ext = [(0, 0)] * len(self.spws)
        if ext:
            self.ext = [(min(a, int(rng.integers(0, 4))), min(nfreqs - b, int(rng.integers(0, 4)))) for a, b in self.spws]
            if any(sum(e) for e in self.ext):
                self.symmetric = False if rng.random() < 0.5 else self.symmetric
        self.sampling = bool(rng.random() < 0.3)
        self.r_params = None
        if weighting == "dayenu":
            self.r_params = {}
            for d in set(self.pair):
                for bl in self.bls:
                    for b in (bl, bl[::-1]):
                        for p in pols:
                            self.r_params[(d,) + b + (p,)] = {
                                "filter_centers": [float(rng.uniform(-2e-7, 2e-7))],
                                "filter_half_widths": [float(rng.uniform(1e-7, 1e-6))],
                                "filter_factors": [float(10 ** rng.uniform(-4, -1))]}

        self.beyond = bool(rng.random() < 0.3)
        self.single = bool(rng.random() < 0.5)
        self.nested = bool(rng.random() < 0.15)

    def ask(self, s):
        """The filter extension to ask for; what exceeds the band is cut off."""
        (a, b), e = self.spws[s], self.ext[s]
        if not self.beyond:
            return e
        more = [2 if x == lim and (x or not self.symmetric) else 0 for x, lim in zip(e, (a, self.nfreqs - b))]
        return (e[0] + more[0], e[1] + more[1])

    def kwargs(self):
        kw = dict(n_dlys=list(self.nd), input_data_weight=self.weighting, norm=self.norm, taper=self.taper,
                  sampling=self.sampling, spw_ranges=list(self.spws), symmetric_taper=self.symmetric,
                  exact_norm=self.exact, verbose=False)
        if any(sum(e) for e in self.ext):
            kw["filter_extensions"] = [self.ask(s) for s in range(len(self.spws))]
        if len(self.spws) == 1 and self.single:  # a single window may be given without a list
            if self.beyond:
                kw["n_dlys"] = [np.int64(kw["n_dlys"][0])]
            for k in ("n_dlys", "spw_ranges", "filter_extensions"):
                if k in kw:
                    kw[k] = kw[k][0]
        if self.r_params is not None:
            kw["r_params"] = copy.deepcopy(self.r_params)
        return kw

    def spelled(self):
        """The polarization pairs in one of their spellings."""
        def name(p):
            if self.xo is None or p[0] == "p":
                return p
            return p.translate(str.maketrans("xy", "en" if self.xo == "east" else "ne"))
        out = []
        for i, pp in enumerate(self.polpairs):
            n = tuple(vis.POLNUM[p] for p in pp)
            out.append([tuple(pp), n, (pp[0], n[1]), tuple(name(p) for p in pp), name(pp[0]) if pp[0] == pp[1] else (n[0], pp[1])][self.spell[i % 8]])
        if len(out) == 1 and self.single:  # one pair may be given without a list
            return out[0]
        return out

    def make(self):
        return PSpecData(**self.mk)

    def run(self, ds=None, **over):
        ds = ds or self.make()
        kw = self.kwargs()
        kw.update(over)
        try:
            b1, b2 = list(self.b1), list(self.b2)
            if self.nested:
                b1, b2 = [[b] for b in b1], [[b] for b in b2]
            return ds.pspec(b1, b2, self.pair, self.spelled(), **kw)
        except ValueError as e:
            if "band-dependent" not in str(e):
                raise
            raise Refused(str(e)) from None

    def justified(self):
        es = [self.want(s, i, pp) for s in range(len(self.spws)) for i in range(len(self.b1)) for pp in self.polpairs]
        return any(E.degenerate or E.scatter > 1e-5 for E in es)

    # -- what the definitions say ------------------------------------------
    def weights(self, d, bl, pol, sl):
        if self.wg[d] is not None:
            return vis.wf(self.wg[d], bl, pol).real.T[sl]
        return vis.w_(self.dsets[d], bl, pol)[sl]

    def pieces(self, s, i, pp):
        (a, b), e = self.spws[s], self.ext[s]
        sl = slice(a - e[0], b + e[1])
        n = b - a
        tap = oqe.taper(self.taper, n)
        sym = self.symmetric and not sum(e)
        out = []
        for k, (d, bl, p) in enumerate(zip(self.pair, (self.b1[i], self.b2[i]), pp)):
            pn = vis.POLNUM[p]
            x = vis.x_(self.dsets[d], bl, pn)[sl]
            w = self.weights(d, bl, pn, sl)
            dy = None
            if self.weighting == "dayenu":
                r = self.r_params[(d,) + bl + (p,)]
                dy = dspec.dayenu_mat_inv(x=self.dsets[d].freq_array[sl], **r)
            out.append((x, w, oqe.weighting(self.weighting, x, w, tap, n, e, sym, dy)))
        return out, tap

    def integral_beam(self, s, pp):
        if not self.exact:
            return None
        a, b = self.spws[s]
        nu = self.dsets[0].freq_array[a:b]
        if self.beam is None:
            B = np.ones((b - a, b - a))
        else:
            r, om, N = self.beam.beam_normalized_response(pp[0], nu)
            r = r / om[:, None]
            B = np.pi / (3 * N * N) * r @ r.T
        return B / (self.nd[s] * np.median(np.diff(self.dsets[0].freq_array)))

    def want(self, s, i, pp, scalar=1.0):
        (o1, o2), tap = self.pieces(s, i, pp)
        E = oqe.Estimate(o1[0], o2[0], o1[2], o2[2], self.nd[s], self.ext[s], self.integral_beam(s, pp), self.sampling)
        E.pieces = (o1, o2)
        if self.norm == "V^-1/2":
            (x1, w1, _), (x2, w2, _) = o1, o2
            C1 = oqe.empirical(x1, w1, x1, w1)
            C2 = oqe.empirical(x2, w2, x2, w2)
            P21 = oqe.empirical(x2, w2, x1, w1, False, False)
            S21 = oqe.empirical(x2, w2, x1, w1, True, True)
            E.V = (np.einsum("aij,bkl,ki,jl->ab", E.E, E.E.conj(), C1, C2)
                   + np.einsum("aij,bkl,li,jk->ab", E.E, E.E.conj(), S21, P21))
        return E.normalize(self.norm, scalar, tap, adjust=not self.exact, band_averaged=self.weighting == "identity")

    def describe(self):
        return (f"pols={self.pols} pairs={list(zip(self.b1, self.b2))} dsets={self.pair} polpairs={self.polpairs} "
                f"spws={self.spws} nd={self.nd} taper={self.taper} weight={self.weighting} norm={self.norm} "
                f"sym={self.symmetric} ext={self.ext} sampling={self.sampling} exact={self.exact} Nt={self.ntimes} "
                f"Nf={self.nfreqs} beam={self.beam is not None} wgts={[w is not None for w in self.wg]} "
                f"flags={[round(float(u.flag_array.mean()), 2) for u in self.dsets]}")
