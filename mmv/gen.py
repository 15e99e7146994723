"""Random inputs shared by the monitors (plain numpy; nothing of the library)."""
from __future__ import annotations

import numpy as np


def cplx(rng, *shape, scale=1.0, real=False):
    x = rng.normal(size=shape) * scale
    return x.astype(complex) if real else (x + 1j * rng.normal(size=shape) * scale) / np.sqrt(2)


def sym(rng, D, norm=0.6, batch=(), kind=None):
    """complex symmetric matrices with spectral norm `norm`; structural variety."""
    kind = kind or rng.choice(["dense", "dense", "real", "sparse", "offdiag", "diag", "zero"],
                              p=[0.3, 0.2, 0.15, 0.15, 0.08, 0.07, 0.05])
    A = cplx(rng, *batch, D, D, real=kind == "real")
    A = A + np.swapaxes(A, -1, -2)
    if kind == "sparse":
        M = rng.random((D, D)) < 0.5
        A = A * (M | M.T)
    if kind == "offdiag":
        A = A * (1 - np.eye(D))
    if kind == "diag":
        A = A * np.eye(D)
    if kind == "zero":
        A = A * 0
    if D:
        nn = np.linalg.norm(A, ord=2, axis=(-2, -1))[..., None, None]
        A = np.where(nn > 0, A / np.where(nn > 0, nn, 1) * norm, A)
    return A


def vec(rng, D, scale=0.7, batch=(), kind=None):
    kind = kind or rng.choice(["dense", "zero", "real", "sparse"], p=[0.6, 0.12, 0.13, 0.15])
    b = cplx(rng, *batch, D, scale=scale, real=kind == "real")
    if kind == "zero":
        b = b * 0
    if kind == "sparse":
        b = b * (rng.random(D) < 0.5)
    return b


def shape(rng, D, maxsize=600, hi=7, lo=1):
    while True:
        mode = rng.integers(4)
        if mode == 0:
            s = [int(rng.integers(lo, hi + 1))] * D
        elif mode == 1:
            s = [int(x) for x in rng.integers(lo, hi + 1, size=D)]
        elif mode == 2:
            s = [int(x) for x in rng.integers(lo, 4, size=D)]
            s[rng.integers(D)] = int(rng.integers(lo, 3 * hi))
        else:
            s = [int(x) for x in rng.choice([1, 2, 3, hi], size=D)]
        if np.prod(s) <= maxsize:
            return tuple(s)
        hi = max(lo + 1, hi - 1)


def batch_shape(rng, maxdim=3):
    nd = int(rng.integers(0, maxdim + 1))
    return tuple(int(x) for x in rng.choice([1, 2, 3], size=nd))


def unitary(rng, n):
    Q, R = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    d = np.diag(R)
    return Q * (d / np.abs(d))


def symplectic(rng, n, rmax=0.6):
    """random symplectic (xxpp) by Bloch-Messiah."""
    def orth(U):
        return np.block([[U.real, -U.imag], [U.imag, U.real]])
    r = rng.uniform(-rmax, rmax, size=n)
    return orth(unitary(rng, n)) @ np.diag(np.concatenate([np.exp(-r), np.exp(r)])) @ orth(unitary(rng, n))
