"""Independent phase-space simulator of Gaussian circuits (xxpp per call, any hbar)."""
from __future__ import annotations

import numpy as np


def symp(U, V):
    """a -> U a + V ad  as real symplectic matrix on (x..., p...)."""
    U, V = np.asarray(U, complex), np.asarray(V, complex)
    return np.block([[(U + V).real, -(U - V).imag], [(U + V).imag, (U - V).real]])


def S_sq(r, phi):
    return symp([[np.cosh(r)]], [[-np.exp(1j * phi) * np.sinh(r)]])


def S_rot(th):
    return symp([[np.exp(1j * th)]], [[0]])


def S_bs(th, phi):
    c, s = np.cos(th), np.sin(th)
    return symp([[c, -np.exp(-1j * phi) * s], [np.exp(1j * phi) * s, c]], np.zeros((2, 2)))


def S_s2(r, phi):
    c, s = np.cosh(r), np.sinh(r) * np.exp(1j * phi)
    return symp(np.eye(2) * c, [[0, s], [s, 0]])


def S_p(s):
    return np.array([[1, 0], [s, 1.0]])


def S_cx(s):
    M = np.eye(4)
    M[1, 0] = s
    M[2, 3] = -s
    return M


def S_cz(s):
    M = np.eye(4)
    M[2, 1] = M[3, 0] = s
    return M


def S_u(U):
    return symp(U, np.zeros_like(U))


B50 = np.array([[1, 1j], [1j, 1]]) / np.sqrt(2)


def U_mz(a, b, internal):
    if internal:
        return B50 @ np.diag([np.exp(1j * a), np.exp(1j * b)]) @ B50
    return B50 @ np.diag([np.exp(1j * b), 1]) @ B50 @ np.diag([np.exp(1j * a), 1])


class PS:
    """Gaussian state: weight, means and covariance on sorted modes (x..., p...)."""

    def __init__(self, hbar):
        self.h, self.modes = hbar, []
        self.mu, self.V, self.w = np.zeros(0), np.zeros((0, 0)), 1.0

    def ix(self, modes):
        M = len(self.modes)
        i = [self.modes.index(m) for m in modes]
        return np.array(i + [M + j for j in i], dtype=int)

    def add(self, modes, mu, V):
        allm = self.modes + list(modes)
        M = len(allm)
        o = list(np.argsort(allm))
        new = PS(self.h)
        new.modes, new.w = [allm[i] for i in o], self.w
        m1, m2 = len(self.modes), len(modes)
        pos1 = list(range(m1)) + [M + i for i in range(m1)]
        pos2 = [m1 + i for i in range(m2)] + [M + m1 + i for i in range(m2)]
        mu_, V_ = np.zeros(2 * M), np.zeros((2 * M, 2 * M))
        mu_[pos1], mu_[pos2] = self.mu, mu
        V_[np.ix_(pos1, pos1)], V_[np.ix_(pos2, pos2)] = self.V, V
        perm = o + [M + i for i in o]
        new.mu, new.V = mu_[perm], V_[np.ix_(perm, perm)]
        return new

    def copy(self):
        n = PS(self.h)
        n.modes, n.mu, n.V, n.w = list(self.modes), self.mu.copy(), self.V.copy(), self.w
        return n

    def chan(self, modes, X, Y=None, d=None):
        n = self.copy()
        i = self.ix(modes)
        T = np.eye(len(self.mu))
        T[np.ix_(i, i)] = X
        n.mu, n.V = T @ n.mu, T @ n.V @ T.T
        if Y is not None:
            n.V[np.ix_(i, i)] += Y
        if d is not None:
            n.mu[i] += d
        return n

    def disp(self, mode, al):
        return self.chan([mode], np.eye(2), d=np.sqrt(2 * self.h) * np.array([np.real(al), np.imag(al)]))

    def trace(self, modes):
        n = PS(self.h)
        n.modes, n.w = [m for m in self.modes if m not in modes], self.w
        i = self.ix(n.modes)
        n.mu, n.V = self.mu[i], self.V[np.ix_(i, i)]
        return n

    def project(self, modes, mu, V):
        """project on a pure Gaussian state of the given modes (sorted)."""
        keep = [m for m in self.modes if m not in modes]
        a, b = self.ix(keep), self.ix(modes)
        C = self.V[np.ix_(b, b)] + V
        d = mu - self.mu[b]
        Ci = np.linalg.inv(C)
        n = PS(self.h)
        n.modes = keep
        K = self.V[np.ix_(a, b)] @ Ci
        n.mu, n.V = self.mu[a] + K @ d, self.V[np.ix_(a, a)] - K @ self.V[np.ix_(b, a)]
        n.w = self.w * self.h ** len(modes) / np.sqrt(np.linalg.det(C)) * np.exp(-0.5 * d @ Ci @ d)
        return n
