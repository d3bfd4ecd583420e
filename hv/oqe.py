"""
Independent delay power spectrum estimator, written from the definitions.

x1, x2: (Nchan, Ntimes) visibilities of the (extended) window, R1, R2 weighting
matrices.  Delay a has index k_a = a - Nd//2 and response e^{-2 pi i k_a n/Nd}.
"""
import numpy as np
from scipy.signal import windows


def taper(name, n):
    """Window functions by their definition."""
    if name in ("none", None):
        return np.ones(n)
    if name in ("blackmanharris", "blackman-harris", "bh"):
        return windows.blackmanharris(n)
    if name in ("hann", "hanning"):
        return windows.hann(n)
    if name in ("hamming",):
        return windows.hamming(n)
    if name.startswith("tukey"):
        return windows.tukey(n, 0.5)
    if name in ("blackmanharris-7term", "bh7"):
        a = [0.27105140069342, 0.43329793923448, 0.21812299954311, 0.06592544638803, 0.01081174209837,
             0.00077658482522, 0.00001388721735]
        x = 2 * np.pi * np.arange(n) / max(n - 1, 1)
        return sum((-1) ** i * c * np.cos(i * x) for i, c in enumerate(a))
    raise KeyError(name)


def empirical(x1, w1, x2, w2, c1=False, c2=True):
    """<x1 x2^dagger> - <x1><x2^dagger>, weighted by w over times, by loops over channels."""
    f1 = np.conj if c1 else (lambda v: v)
    f2 = np.conj if c2 else (lambda v: v)
    n1, n2 = len(x1), len(x2)
    C = np.zeros((n1, n2), complex)
    mean = lambda x, w: np.array([np.sum(w[i] * x[i]) / max(np.sum(w[i]), 1) if np.sum(w[i]) > 0 else 0.0
                                  for i in range(len(x))])
    m1, m2 = f1(mean(x1, w1)), f2(mean(x2, w2))
    for i in range(n1):
        for j in range(n2):
            ww = np.sum(w1[i] * w2[j])
            C[i, j] = np.sum(f1(w1[i] * x1[i]) * f2(w2[j] * x2[j])) / (ww if ww > 0 else 1) - m1[i] * m2[j]
    return C


def weighting(kind, x, w, tap, n, ext=(0, 0), symmetric=True, dayenu=None):
    """R for one baseline: (n, n + sum(ext))."""
    Y = (w.max(axis=1) > 0).astype(float)
    T = np.array(tap, float).clip(0, None)
    N = n + sum(ext)
    if kind == "identity":
        K = np.diag(Y)
    elif kind == "iC":
        C = empirical(x, w, x, w)
        K = np.linalg.inv(C) if np.linalg.cond(C) < 1e9 else np.linalg.pinv(C)
        K = Y[:, None] * K * Y[None, :]
    else:
        K = np.linalg.pinv(np.sqrt(Y)[:, None] * dayenu * np.sqrt(Y)[None, :])
    if symmetric:
        return np.sqrt(T)[:, None] * K * np.sqrt(T)[None, :]
    return T[:, None] * K[ext[0]:ext[0] + n, :]


def modes(nd, n, shift=0):
    """(nd, n) matrix of e^{-2 pi i k (m - shift)/nd}."""
    k = np.arange(nd) - nd // 2
    return np.exp(-2j * np.pi * np.outer(k, np.arange(n) - shift) / nd)


class Estimate:
    def __init__(self, x1, x2, R1, R2, nd, ext=(0, 0), beam=None, sampling=False):
        """beam: (n, n) factor multiplying every response matrix (exact normalization)."""
        n, N = R1.shape
        self.nd, self.n, self.N, self.ext = nd, n, N, ext
        self.R1, self.R2 = R1, R2
        F, Fe = modes(nd, n), modes(nd, N, ext[0])
        B = np.ones((n, n)) if beam is None else beam
        self.Q = np.einsum("an,am->anm", F.conj(), F) * B
        Qe = np.einsum("an,am->anm", Fe.conj(), Fe) * (np.ones((N, N)) if beam is None else beam)
        z1, z2 = R1 @ x1, R2 @ x2
        if beam is None:
            self.q = 0.5 * np.conj(F @ z1) * (F @ z2)
        else:
            self.q = 0.5 * np.einsum("nt,anm,mt->at", z1.conj(), self.Q, z2)
        d = np.arange(N)
        S = np.ones((N, N)) if sampling else np.sinc((d[:, None] - d[None, :]) / N)
        E = np.einsum("ni,anm,mj->aij", R1.conj(), self.Q, R2)  # R1^dagger Q_a R2
        self.E = 0.5 * E
        G = 0.5 * np.einsum("aij,bji->ab", E, Qe)
        H = 0.5 * np.einsum("aij,bji->ab", E, Qe * S)
        if not G.any():
            G = 0.5 * np.eye(nd)
        if not H.any():
            H = 0.5 * np.eye(nd)
        self.G, self.H = G, H
        full = np.abs(self.Q).sum((1, 2)).max() * np.abs(R1).max() * np.abs(R2).max()
        # sums that vanish but for rounding: nothing can be said about the normalized result
        self.degenerate = any((np.abs(A.sum(1)) < 1e-9 * np.abs(A).sum(1)).any() or np.abs(A).max() < 1e-12 * full
                              for A in (G, H))
        self.V = None

    def normalize(self, norm, scalar, tap, adjust=True, band_averaged=True):
        """Normalized bandpowers, windows and the total matrix from q to p."""
        G, H = self.G, self.H
        if norm == "I":
            M = np.diag(1 / G.sum(1))
            W = H / H.sum(1)[:, None]
        elif norm == "H^-1":
            M = np.linalg.inv(H)
            W = M @ H
            W = W / W.sum(1)[:, None]
        else:
            V = self.V
            val, vec = np.linalg.eigh(V)
            k = val > 1e-20 * val.max()
            if val.min() < 1e-9 * val.max():
                self.degenerate = True
            Vh = (vec[:, k] / np.sqrt(val[k])) @ vec[:, k].conj().T
            M = Vh / (Vh @ H).sum(1)[:, None]
            W = M @ H
        fac = np.full(self.nd, scalar, float)
        if norm == "I" and adjust:
            with np.errstate(all="ignore"):
                r = H.sum(1).real / G.sum(1).real
            r = np.where(np.isfinite(r), r, 1.0)
            self.scatter = np.max(np.abs(r - r.mean())) / abs(r.mean())
            if band_averaged:
                r = np.full(self.nd, r.mean())
            fac = fac * self.nd / self.n / r * np.mean(np.asarray(tap) ** 2)
        self.M = M
        self.p = fac[:, None] * (M @ self.q)
        self.W = W.real
        self.T = fac[:, None] * M
        return self

    def covariances(self, C11, C22, C12=None, C21=None, P11=None, S11=None, P22=None, S22=None, P21=None, S21=None,
                    T=None):
        """Covariance of the real and of the imaginary part of T q for Gaussian x1, x2 with these second moments."""
        E = self.E
        z = np.zeros_like(C11, complex)
        g = lambda a: z if a is None else a
        C12, C21, P11, S11, P22, S22, P21, S21 = map(g, (C12, C21, P11, S11, P22, S22, P21, S21))
        # q_a = x1* E_a x2 summed over channels: Isserlis' theorem term by term
        qq = np.einsum("aij,bkl,ik,jl->ab", E, E, S11, P22) + np.einsum("aij,bkl,li,jk->ab", E, E, C21, C21)
        qqd = (np.einsum("aij,bkl,ki,jl->ab", E, E.conj(), C11, C22)
               + np.einsum("aij,bkl,li,jk->ab", E, E.conj(), S21, P21))
        qdqd = (np.einsum("aij,bkl,ik,jl->ab", E.conj(), E.conj(), P11, S22)
                + np.einsum("aij,bkl,il,kj->ab", E.conj(), E.conj(), C12, C12))
        return self.combine(qq, qqd, qdqd, T)

    def combine(self, qq, qqd, qdqd, T=None):
        T = np.eye(self.nd) if T is None else T
        a = T @ qq @ T.T
        b = T @ qqd @ T.conj().T
        c = T.conj() @ qdqd @ T.conj().T
        bc = T.conj() @ qqd.conj() @ T.T
        return ((a + b + bc + c) / 4).real, (-(a - b - bc + c) / 4).real
