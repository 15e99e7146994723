"""Independent reference for polynomial-exponential functions.

F(z) = sum_k c_k  d_y^k/sqrt(k!)  exp( 1/2 (z,y).A.(z,y) + b.(z,y) ) |_{y=0}

Taylor coefficients are obtained as a product of one-monomial exponential series (no recurrence of
the library is used), in extended precision.
"""
from __future__ import annotations

import numpy as np

CL = np.clongdouble


def _shift(T, axes):
    """multiply by prod of z_axes: shift by one along each listed axis (repeats allowed)."""
    out = np.zeros_like(T)
    n = {a: axes.count(a) for a in axes}
    src, dst = [slice(None)] * T.ndim, [slice(None)] * T.ndim
    for a, k in n.items():
        if T.shape[a] <= k:
            return out
        src[a] = slice(0, T.shape[a] - k)
        dst[a] = slice(k, None)
    out[tuple(dst)] = T[tuple(src)]
    return out


def _mul_exp(T, a, axes):
    if a == 0:
        return T
    term, k = T, 0
    out = T.copy()
    while True:
        k += 1
        term = _shift(term, axes) * (a / k)
        if not term.any():
            return out
        out += term


def series(A, b, c, shape):
    """[z^n] c exp(z.A.z/2 + b.z) for n < shape (not normalised)."""
    A, b = np.asarray(A, dtype=CL), np.asarray(b, dtype=CL)
    D = b.shape[-1]
    T = np.zeros(tuple(shape), dtype=CL)
    T[(0,) * D] = c
    for i in range(D):
        T = _mul_exp(T, b[i], [i])
        T = _mul_exp(T, A[i, i] / 2, [i, i])
        for j in range(i):
            T = _mul_exp(T, (A[i, j] + A[j, i]) / 2, [i, j])
    return T


def sqrtfact(shape):
    out = np.ones((1,) * len(shape), dtype=np.longdouble)
    for i, s in enumerate(shape):
        f = np.sqrt(np.cumprod(np.concatenate([[1.0], np.arange(1, s)]).astype(np.longdouble)))
        out = out * f.reshape([-1 if j == i else 1 for j in range(len(shape))])
    return out


def hermite(A, b, c, shape):
    """sqrt(n!) [z^n]; (values complex128, conditioning scale float64)."""
    shape = tuple(shape)
    if len(shape) == 0:
        return np.asarray(complex(c)), np.asarray(abs(complex(c)))
    f = sqrtfact(shape)
    G = series(A, b, c, shape) * f
    S = series(np.abs(A), np.abs(b), abs(c), shape) * f
    return G.astype(complex), np.abs(S).astype(float)


def poly_fock(A, b, c, shape):
    """Fock array of a (single) polyexp function with derived variables; c is an array."""
    c = np.asarray(c, dtype=complex)
    shape = tuple(shape)
    m = c.ndim
    G, S = hermite(A, b, 1.0, shape + c.shape)
    if m == 0:
        return G * c, S * abs(c)
    ax = tuple(range(len(shape), len(shape) + m))
    return np.sum(G * c, axis=ax), np.sum(S * np.abs(c), axis=ax)


def poly_eval(A, b, c, z):
    """value of a (single) polyexp function at the point z, with its conditioning scale."""
    A, b, c = np.asarray(A, dtype=complex), np.asarray(b, dtype=complex), np.asarray(c, dtype=complex)
    z = np.asarray(z, dtype=complex)
    n = z.shape[0]
    assert A.shape[-1] == n + c.ndim
    e = np.exp(0.5 * z @ A[:n, :n] @ z + b[:n] @ z)
    es = np.abs(e) * (1 + 0.5 * np.abs(z) @ np.abs(A[:n, :n]) @ np.abs(z) + np.abs(b[:n]) @ np.abs(z))
    if c.ndim == 0:
        return e * c, es * abs(c)
    G, S = hermite(A[n:, n:], b[n:] + A[n:, :n] @ z, 1.0, c.shape)
    return e * np.sum(G * c), es * np.sum(S * np.abs(c))
