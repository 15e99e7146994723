"""Monitors: registration, execution context, comparison helpers."""

from __future__ import annotations

import numpy as np

REGISTRY: dict[str, "Monitor"] = {}


class Violation(Exception):
    def __init__(self, key: str, msg: str):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """The generated case is outside the property's domain (ill conditioned, singular...)."""


class Monitor:
    def __init__(self, fn, name, quick, thorough, tags):
        self.fn, self.name, self.quick, self.thorough, self.tags = fn, name, quick, thorough, tags


def monitor(quick: int, thorough: int | None = None, tags=("numpy",), name=None):
    def deco(fn):
        n = name or fn.__name__
        REGISTRY[n] = Monitor(fn, n, quick, thorough if thorough is not None else quick * 12, tags)
        return fn

    return deco


def arr(x):
    """numpy view of anything numeric (numpy, jax, python scalar)."""
    return np.asarray(x)


class Ctx:
    def __init__(self, rng, tier, backend, index=0):
        self.rng = rng
        self.tier = tier
        self.backend = backend
        self.index = index
        self.events = 0
        self.distinct: set[str] = set()
        self.max_dev = 0.0
        self.note: dict = {}

    # -- coverage -------------------------------------------------------
    def sig(self, *parts):
        self.distinct.add("|".join(str(p) for p in parts))

    # -- oracles --------------------------------------------------------
    def ok(self, cond, key, msg=""):
        self.events += 1
        if not bool(cond):
            raise Violation(key, msg or key)

    def close(self, got, want, key, tol=1e-8, rel=1e-7, msg=""):
        """|got-want| <= tol + rel*max|want|, same shape, finite."""
        got, want = arr(got), arr(want)
        self.events += max(1, int(want.size))
        if got.shape != want.shape:
            raise Violation(key, f"{msg} shape {got.shape} != expected {want.shape}")
        if want.size == 0:
            return
        if got.dtype == object or want.dtype == object:
            raise Violation(key, f"{msg} object dtype")
        if not np.all(np.isfinite(want)):
            raise Skip("reference not finite")
        if not np.all(np.isfinite(got)):
            raise Violation(key, f"{msg} non finite result {got.ravel()[:6]} (expected {want.ravel()[:6]})")
        scale = tol + rel * float(np.max(np.abs(want)))
        dev = float(np.max(np.abs(got.astype(complex) - want.astype(complex))))
        self.max_dev = max(self.max_dev, dev / scale)
        if dev > scale:
            i = int(np.argmax(np.abs(got.astype(complex) - want.astype(complex))))
            raise Violation(
                key,
                f"{msg} deviation {dev:.3e} > {scale:.3e} at flat index {i}: got {got.ravel()[i]}, "
                f"expected {want.ravel()[i]} (note={self.note})",
            )

    def within(self, got, want, scale, key, tol=1e-8, msg=""):
        """elementwise |got-want| <= tol*(scale)."""
        got, want = arr(got), arr(want)
        self.events += max(1, int(want.size))
        if got.shape != want.shape:
            raise Violation(key, f"{msg} shape {got.shape} != expected {want.shape}")
        if want.size == 0:
            return
        if not np.all(np.isfinite(want)) or not np.all(np.isfinite(scale)):
            raise Skip("reference not finite")
        if not np.all(np.isfinite(got)):
            raise Violation(key, f"{msg} non finite result {got.ravel()[:6]} (expected {want.ravel()[:6]})")
        r = np.abs(got.astype(complex) - want.astype(complex)) / (tol * np.asarray(scale, dtype=float) + 1e-300)
        r = np.broadcast_to(r, want.shape)
        m = float(np.max(r))
        self.max_dev = max(self.max_dev, m)
        if m > 1:
            i = int(np.argmax(r))
            raise Violation(
                key,
                f"{msg} deviation {m:.3e} x tolerance at index {np.unravel_index(i, want.shape)}: got {got.ravel()[i]}, "
                f"expected {want.ravel()[i]} (note={self.note})",
            )

    def unchanged(self, pairs, key):
        """pairs: list of (array, earlier copy)."""
        for i, (now, then) in enumerate(pairs):
            self.events += 1
            now = arr(now)
            if now.shape != then.shape or not np.array_equal(now, then, equal_nan=True):
                raise Violation(key, f"operand {i} was modified (note={self.note})")
