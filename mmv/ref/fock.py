"""Independent truncated Fock-space simulator (ladder operators, operator exponentials, Kraus operators)."""
from __future__ import annotations

import numpy as np
from functools import lru_cache
from math import comb, factorial
from scipy.linalg import expm


@lru_cache(None)
def _a(N):
    A = np.diag(np.sqrt(np.arange(1, N))).astype(complex)
    A = np.diag(np.sqrt(np.arange(1, N)), 1).astype(complex)
    A.flags.writeable = False
    return A


def a(N):
    return _a(N).copy()


PAD = 10


def _cut(M, N, k, big):
    return M.reshape((big,) * (2 * k))[(slice(0, N),) * (2 * k)]


def single(gen, N):
    """exp(gen(a, ad)) on one mode; tensor [out, in]."""
    big = N + PAD + 8
    A = a(big)
    return expm(gen(A, A.conj().T))[:N, :N]


def two(gen, N):
    big = N + 6
    A, I = a(big), np.eye(big)
    a1, a2 = np.kron(A, I), np.kron(I, A)
    return _cut(expm(gen(a1, a1.conj().T, a2, a2.conj().T)), N, 2, big)


def D(al, N):
    return single(lambda x, xd: al * xd - np.conj(al) * x, N)


def S(r, phi, N):
    z = r * np.exp(1j * phi)
    return single(lambda x, xd: 0.5 * (np.conj(z) * x @ x - z * xd @ xd), N)


def R(th, N):
    return np.diag(np.exp(1j * th * np.arange(N)))


def damp(beta, N):
    return np.diag(np.exp(-beta * np.arange(N))).astype(complex)


def posvac(M):
    """fix the global phase so that the vacuum amplitude is positive."""
    v = M[(0,) * M.ndim]
    return M * (abs(v) / v)


def P(s, N):
    # exp(i s q^2/2hbar), q = sqrt(hbar/2)(a+ad)
    return posvac(single(lambda x, xd: 0.25j * s * (x + xd) @ (x + xd), N))


def BS(th, phi, N):
    # number conserving: exact on every total photon number sector
    big = 2 * N
    A, I = a(big), np.eye(big)
    a1, a2 = np.kron(A, I), np.kron(I, A)
    out = np.zeros((N, N, N, N), complex)
    G = np.exp(1j * phi) * a1 @ a2.conj().T
    G = th * (G - G.conj().T)
    for n in range(2 * N - 1):
        idx = [(k, n - k) for k in range(n + 1)]
        fl = [i * big + j for i, j in idx]
        U = expm(G[np.ix_(fl, fl)])
        for p, (i, j) in enumerate(idx):
            for q, (k, l) in enumerate(idx):
                if max(i, j, k, l) < N:
                    out[i, j, k, l] = U[p, q]
    return out


def S2(r, phi, N):
    z = r * np.exp(1j * phi)
    return two(lambda x, xd, y, yd: z * xd @ yd - np.conj(z) * x @ y, N)


def CX(s, N):
    # exp(-i s q1 p2/hbar)
    return posvac(two(lambda x, xd, y, yd: -1j * s * 0.5 * (x + xd) @ (-1j * (y - yd)), N))


def CZ(s, N):
    return posvac(two(lambda x, xd, y, yd: 1j * s * 0.5 * (x + xd) @ (y + yd), N))


def passive(U, N):
    """Fock matrix of a -> U a (tensor [out..., in...]): permanents through polynomial expansion."""
    n = U.shape[0]
    out = np.zeros((N,) * (2 * n), complex)
    # |m> -> prod_j (sum_i U_ij ad_i)^{m_j}/sqrt(m_j!)
    import itertools

    for m in itertools.product(range(N), repeat=n):
        poly = {(0,) * n: 1.0 + 0j}
        for j in range(n):
            for _ in range(m[j]):
                new = {}
                for e, v in poly.items():
                    for i in range(n):
                        f = list(e)
                        f[i] += 1
                        f = tuple(f)
                        new[f] = new.get(f, 0) + v * U[i, j]
                poly = new
        nm = np.prod([factorial(x) for x in m])
        for e, v in poly.items():
            if max(e) < N:
                out[e + m] = v * np.sqrt(np.prod([float(factorial(x)) for x in e]) / nm)
    return out


def atten_kraus(eta, N):
    K = []
    for k in range(N):
        M = np.zeros((N, N), complex)
        for n in range(k, N):
            M[n - k, n] = np.sqrt(comb(n, k) * (1 - eta) ** k * eta ** (n - k))
        K.append(M)
    return K


def amp_kraus(g, N):
    ad = a(N).conj().T
    K, P_ = [], np.eye(N)
    G = np.diag(g ** (-np.arange(N) / 2.0))
    for k in range(N):
        K.append(np.sqrt((1 / g) * ((g - 1) / g) ** k / float(factorial(k))) * P_ @ G)
        P_ = ad @ P_
    return [x.astype(complex) for x in K]


def coherent(al, N):
    v = np.zeros(N, complex)
    v[0] = np.exp(-abs(al) ** 2 / 2)
    for n in range(1, N):
        v[n] = v[n - 1] * al / np.sqrt(n)
    return v


class State:
    """ket tensor (pure) or density tensor [ket..., bra...] on sorted modes."""

    def __init__(self, modes, T, pure):
        self.modes, self.T, self.pure = list(modes), T, pure

    @staticmethod
    def empty():
        return State([], np.ones((), complex), True)

    @property
    def M(self):
        return len(self.modes)

    def dm(self):
        if not self.pure:
            return self
        return State(self.modes, np.multiply.outer(self.T, self.T.conj()), False)

    def _sort(self, modes, T, pure):
        o = list(np.argsort(modes))
        perm = o if pure else o + [len(modes) + i for i in o]
        return State([modes[i] for i in o], T.transpose(perm), pure)

    def tensor(self, modes, T, pure):
        s = self if pure == self.pure else self.dm()
        if pure != s.pure:
            t = State(modes, T, True).dm()
            T = t.T
        T2 = np.multiply.outer(s.T, T)
        m1, m2 = s.M, len(modes)
        if not s.pure:  # ket1 bra1 ket2 bra2 -> ket1 ket2 bra1 bra2
            T2 = T2.transpose(list(range(m1)) + list(range(2 * m1, 2 * m1 + m2)) + list(range(m1, 2 * m1))
                              + list(range(2 * m1 + m2, 2 * m1 + 2 * m2)))
        return self._sort(s.modes + list(modes), T2, s.pure)

    def _left(self, T, modes, U, off):
        k = len(modes)
        ax = [self.modes.index(m) + off for m in modes]
        T = np.tensordot(U, T, axes=(list(range(k, 2 * k)), ax))
        return np.moveaxis(T, range(k), ax)

    def apply(self, modes, U):
        T = self._left(self.T, modes, U, 0)
        if not self.pure:
            T = self._left(T, modes, U.conj(), self.M)
        return State(self.modes, T, self.pure)

    def kraus(self, modes, Ks):
        s = self.dm()
        T = 0
        for K in Ks:
            T = T + s._left(s._left(s.T, modes, K, 0), modes, K.conj(), s.M)
        return State(s.modes, T, False)

    def phasenoise(self, mode, sd):
        s = self.dm()
        i = s.modes.index(mode)
        N = s.T.shape[0]
        n = np.arange(N)
        f = np.exp(-0.5 * (n[:, None] - n[None, :]) ** 2 * sd**2)
        sh = [1] * s.T.ndim
        sh[i] = sh[s.M + i] = N
        return State(s.modes, s.T * f.reshape(sh), False)

    def project(self, mode, v):
        """<v| on one mode."""
        i = self.modes.index(mode)
        T = np.tensordot(v.conj(), self.T, axes=(0, i))
        if not self.pure:
            T = np.tensordot(v, T, axes=(0, self.M - 1 + i))
        return State([m for m in self.modes if m != mode], T, self.pure)

    def trace(self, mode):
        s = self.dm()
        i = s.modes.index(mode)
        return State([m for m in s.modes if m != mode], np.trace(s.T, axis1=i, axis2=s.M + i), False)

    def mm(self, K):
        """array in the library's order, cut to K: ket[modes] or dm[bra..., ket...]."""
        T = self.T[(slice(0, K),) * self.T.ndim]
        if self.pure:
            return T
        return T.transpose(list(range(self.M, 2 * self.M)) + list(range(self.M)))

    def norm(self):
        s = self.dm()
        if s.M == 0:
            return s.T
        n = int(np.prod(s.T.shape[: s.M]))
        return np.trace(s.T.reshape(n, n))
