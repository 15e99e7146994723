"""P03: custom gradients are the true derivatives (jax backend, finite-difference oracles)."""

from __future__ import annotations

import numpy as np

from mmv import gen
from mmv.checks.p01 import _dm_triple
from mmv.checks.p02 import alpha, angle, t_bs, t_disp, t_sq, t_sqv
from mmv.core import Skip, monitor
from mmv.ref import taylor

RULE = (
    "one case = one vjp/gradient pulled back through the library for one input, cutoff, batch shape and random "
    "cotangent, compared along random directions with a Richardson finite difference of the independent primal "
    "(hermite/gate monitors) or of the library's own primal (cost monitors); distinct = signatures"
)
ASSUMPTIONS = ["numerical differentiation error below the tolerance 1e-6 relative to the size of the terms"]
MON = ["g_hermite", "g_hermite_batched", "g_hermite_bcast", "g_binomial", "g_diagonal", "g_leftover",
       "g_displacement", "g_squeezer", "g_squeezed", "g_beamsplitter", "g_component", "g_cost"]
KERNEL = ["g_hermite", "g_hermite_batched", "g_diagonal", "g_displacement", "g_squeezer", "g_beamsplitter"]


def groups(tier):
    q = tier == "quick"
    return [
        {"backend": "jax", "shards": 5 if q else 6, "monitors": MON},
        {"backend": "jax", "shards": 2, "monitors": KERNEL, "label": "boundscheck", "cache": "bc",
         "env": {"NUMBA_BOUNDSCHECK": "1"}, "scale": 0.4},
    ]


def _math():
    from mrmustard import math

    return math


def richardson(f, h):
    """f'(0) of a function of one real variable, with an error estimate."""
    d = {k: (f(k * h) - f(-k * h)) / (2 * k * h) for k in (1, 2, 4)}
    a, b = (4 * d[1] - d[2]) / 3, (4 * d[2] - d[4]) / 3
    return (16 * a - b) / 15, np.max(np.abs(a - b))


def judge(ctx, got, want, err, scale, key):
    ctx.events += 1
    tol = 2e-6 * scale + 10 * err
    if err > 1e-3 * scale:
        raise Skip
    ctx.max_dev = max(ctx.max_dev, float(abs(got - want) / tol))
    if not np.isfinite(got) or abs(got - want) > tol:
        from mmv.core import Violation

        raise Violation(key, f"gradient {got} but derivative {want} (scale {scale}, err {err}, note={ctx.note})")


def directional(ctx, fun, args, ref, dirs, key, gsel=None):
    """fun: library function (complex array), ref(args)->array: independent primal.

    jax convention: pull-back g of a cotangent w satisfies Re sum(w dF) = Re sum(g dx).
    """
    import jax

    r = ctx.rng
    dev = [_math().astensor(a) for a in args]
    val, pull = jax.vjp(fun, *dev)
    val = np.asarray(val)
    w = gen.cplx(r, *val.shape)
    if r.random() < 0.3 and val.size > 1:  # sparse cotangent: one entry only
        m = np.zeros(val.size)
        m[r.integers(val.size)] = 1
        w = w * m.reshape(val.shape)
    gs = [np.asarray(g) for g in pull(jax.numpy.asarray(w))]
    for g, a in zip(gs, args):
        ctx.ok(g.shape == np.shape(a), key + ":shape", f"{g.shape} vs {np.shape(a)}")
    for d in dirs:
        lhs = sum(float(np.real(np.sum(g * x))) for g, x in zip(gs, d))
        scales = []

        def line(t):
            v = ref(*[a + t * x for a, x in zip(args, d)])
            scales.append(float(np.sum(np.abs(w * v))))
            return np.real(np.sum(w * v))

        want, err = richardson(line, 2e-3)
        judge(ctx, lhs, float(want), float(err), max(scales) + abs(want) + 1e-3, key)


def triple_dirs(r, A, b, c):
    out = []
    for k in range(4):
        dA, db, dc = gen.sym(r, A.shape[-1], norm=1.0, batch=A.shape[:-2], kind="dense"), gen.cplx(r, *b.shape), gen.cplx(r, *np.shape(c))
        out.append([dA * (k in (0, 3)), db * (k in (1, 3)), dc * (k in (2, 3))])
    return out


@monitor(quick=36, thorough=900)
def g_hermite(ctx):
    r = ctx.rng
    D = int(r.integers(1, 5))
    shape = gen.shape(r, D, maxsize=120, hi=6)
    A, b, c = gen.sym(r, D), gen.vec(r, D), np.array(complex(gen.cplx(r)))
    stable = bool(r.integers(2))
    ctx.note = {"shape": shape, "stable": stable}
    directional(ctx, lambda A, b, c: _math().hermite_renormalized(A, b, c, shape=shape, stable=stable), [A, b, c],
                lambda A, b, c: taylor.hermite(A, b, c, shape)[0], triple_dirs(r, A, b, c), "hermite")
    ctx.sig("h", stable, shape)


def stacked(A, b, c, shape):
    bs = b.shape[:-1]
    out = np.zeros(bs + shape, complex)
    for i in np.ndindex(*bs):
        out[i] = taylor.hermite(A[i] if A.ndim > 2 else A, b[i], c[i] if np.ndim(c) else c, shape)[0]
    return out


@monitor(quick=36, thorough=600)
def g_hermite_batched(ctx):
    r = ctx.rng
    D = int(r.integers(1, 4))
    shape = gen.shape(r, D, maxsize=40, hi=5)
    bs = gen.batch_shape(r, 2) or (2,)
    A, b, c = gen.sym(r, D, batch=bs), gen.vec(r, D, batch=bs), gen.cplx(r, *bs)
    stable = bool(r.integers(2))
    ctx.note = {"shape": shape, "batch": bs, "stable": stable}
    directional(ctx, lambda A, b, c: _math().hermite_renormalized(A, b, c, shape=shape, stable=stable), [A, b, c],
                lambda A, b, c: stacked(A, b, c, shape), triple_dirs(r, A, b, c), "hermite_batched")
    ctx.sig("hb", stable, bs, shape)


@monitor(quick=24, thorough=400)
def g_hermite_bcast(ctx):
    r = ctx.rng
    D = int(r.integers(1, 4))
    shape = gen.shape(r, D, maxsize=40, hi=5)
    bs = gen.batch_shape(r, 2) or (3,)
    A, b, c = gen.sym(r, D), gen.vec(r, D, batch=bs), np.array(complex(gen.cplx(r)))
    ctx.note = {"shape": shape, "batch": bs}
    directional(ctx, lambda A, b, c: _math().hermite_renormalized(A, b, c, shape=shape), [A, b, c],
                lambda A, b, c: stacked(A, b, c, shape), triple_dirs(r, A, b, c), "hermite_bcast")
    ctx.sig("hbc", bs, shape)


@monitor(quick=18, thorough=300)
def g_binomial(ctx):
    r = ctx.rng
    D = int(r.integers(1, 4))
    shape = gen.shape(r, D, maxsize=60, hi=5)
    full = sum(shape) - D + 1
    gc = full if r.integers(2) else int(r.integers(1, full + 1))
    A, b, c = gen.sym(r, D), gen.vec(r, D), np.array(complex(gen.cplx(r, scale=0.5)))
    keep = np.indices(shape).sum(axis=0) < gc
    ctx.note = {"shape": shape, "global_cutoff": gc, "full": full}
    directional(ctx, lambda A, b, c: _math().hermite_renormalized_binomial(A, b, c, shape=shape, max_l2=1e30, global_cutoff=gc),
                [A, b, c], lambda A, b, c: taylor.hermite(A, b, c, shape)[0] * keep, triple_dirs(r, A, b, c),
                "binomial:" + ("full" if gc == full else "cut"))
    ctx.sig("bin", gc == full, shape)


@monitor(quick=24, thorough=400)
def g_diagonal(ctx):
    r = ctx.rng
    M = int(r.choice([1, 2, 3], p=[0.3, 0.5, 0.2]))
    cut = gen.shape(r, M, maxsize={1: 10, 2: 20, 3: 12}[M], hi=5)
    reord = bool(r.integers(2))
    A, b, c = _dm_triple(r, M, False)
    c = np.array(c)
    perm = np.array([i for m in range(M) for i in (m, m + M)])
    A2, b2 = (A, b) if reord else (A[np.ix_(perm, perm)], b[perm])
    inv = np.argsort(perm)
    ctx.note = {"M": M, "cut": cut, "reord": reord}
    idx = np.indices(cut)

    def ref(A, b, c):
        if not reord:
            A, b = A[np.ix_(inv, inv)], b[inv]
        return taylor.hermite(A, b, c, cut + cut)[0][tuple(idx) + tuple(idx)]

    directional(ctx, lambda A, b, c: _math().hermite_renormalized_diagonal(A, b, c, cut, reorderedAB=reord),
                [A2, b2, c], ref, triple_dirs(r, A2, b2, c), "diagonal")
    ctx.sig("dia", reord, cut)


@monitor(quick=24, thorough=400)
def g_leftover(ctx):
    r = ctx.rng
    M = int(r.choice([2, 3], p=[0.6, 0.4]))
    pnr = tuple(int(x) for x in r.integers(0, 3, size=M - 1))
    oc = int(r.integers(0, 4))
    reord = bool(r.integers(2))
    A, b, c = _dm_triple(r, M, False)
    c = np.array(c)
    perm = np.array([i for m in range(M) for i in (m, m + M)])
    inv = np.argsort(perm)
    A2, b2 = (A, b) if reord else (A[np.ix_(perm, perm)], b[perm])
    shp = (oc + 1,) + tuple(p + 1 for p in pnr)
    ctx.note = {"M": M, "output": oc, "pnr": pnr, "reord": reord}
    grid = np.indices((oc + 1, oc + 1) + shp[1:])

    def ref(A, b, c):
        if not reord:
            A, b = A[np.ix_(inv, inv)], b[inv]
        return taylor.hermite(A, b, c, shp + shp)[0][(grid[0],) + tuple(grid[2:]) + (grid[1],) + tuple(grid[2:])]

    directional(ctx, lambda A, b, c: _math().hermite_renormalized_1leftoverMode(A, b, c, oc, pnr, reorderedAB=reord),
                [A2, b2, c], ref, triple_dirs(r, A2, b2, c), "leftover")
    ctx.sig("left", reord, oc, pnr)


def real_dirs(r, n):
    out = [[float(i == j) for i in range(n)] for j in range(n)]
    return out + [[float(x) for x in r.normal(size=n)]] if n > 1 else out


@monitor(quick=30, thorough=500)
def g_displacement(ctx):
    r = ctx.rng
    al = alpha(r) + 0.01
    n, m = (int(x) for x in r.integers(1, 9, size=2))
    s = (n, m)
    ctx.note = {"alpha": al, "shape": s}
    directional(ctx, lambda a: _math().displacement(a, shape=s), [np.array(al)],
                lambda a: taylor.hermite(*t_disp(complex(a)), s)[0], [[1.0 + 0j], [1j], [complex(gen.cplx(r))]],
                "displacement")
    ctx.sig("D", s)


@monitor(quick=30, thorough=500)
def g_squeezer(ctx):
    r = ctx.rng
    a, p = float(r.uniform(-1.2, 1.2)), angle(r)
    s = tuple(int(x) for x in r.integers(1, 9, size=2))
    ctx.note = {"r": a, "phi": p, "shape": s}
    directional(ctx, lambda a, p: _math().squeezer(a, p, shape=s), [np.array(a), np.array(p)],
                lambda a, p: taylor.hermite(*t_sq(a, p), s)[0], real_dirs(r, 2), "squeezer")
    ctx.sig("S", s)


@monitor(quick=20, thorough=300)
def g_squeezed(ctx):
    r = ctx.rng
    a, p, s = float(r.uniform(-1.2, 1.2)), angle(r), (int(r.integers(1, 14)),)
    ctx.note = {"r": a, "phi": p, "shape": s}
    directional(ctx, lambda a, p: _math().squeezed(a, p, shape=s), [np.array(a), np.array(p)],
                lambda a, p: taylor.hermite(*t_sqv(a, p), s)[0], real_dirs(r, 2), "squeezed")
    ctx.sig("SV", s)


@monitor(quick=30, thorough=500)
def g_beamsplitter(ctx):
    r = ctx.rng
    t, p = angle(r), angle(r)
    method = str(r.choice(["vanilla", "stable", "schwinger"]))
    if r.integers(2) or method == "schwinger":
        a, b = (int(x) for x in r.integers(1, 6, size=2))
        s = (a, b, a, b)
    else:
        s = tuple(int(x) for x in r.integers(1, 6, size=4))
    ctx.note = {"theta": t, "phi": p, "shape": s, "method": method}
    directional(ctx, lambda t, p: _math().beamsplitter(t, p, shape=s, method=method), [np.array(t), np.array(p)],
                lambda t, p: taylor.hermite(*t_bs(t, p), s)[0], real_dirs(r, 2), "beamsplitter:" + method)
    ctx.sig("BS", method, s)


# -- costs through components: derivative of the library's own primal ------------------------------
def check_cost(ctx, f, x, key, h=2e-3):
    import jax

    r = ctx.rng
    x = np.asarray(x, dtype=float)
    g = np.asarray(jax.grad(lambda v: f(v))(jax.numpy.asarray(x)))
    vals = []
    for k in range(2):
        d = r.normal(size=x.shape) if k else np.eye(x.size)[r.integers(x.size)].reshape(x.shape)

        def line(t):
            v = float(f(jax.numpy.asarray(x + t * d)))
            vals.append(abs(v))
            return v

        want, err = richardson(line, h)
        judge(ctx, float(np.sum(g * d)), want, err, max(vals) + abs(want) + 1e-2, key)


@monitor(quick=40, thorough=600)
def g_component(ctx):
    """Fock arrays of batched gates/states and of fock_array/to_fock of the generic conversion."""
    import jax.numpy as jnp

    from mrmustard.lab import BSgate, Coherent, Dgate, DisplacedSqueezed, Sgate, SqueezedVacuum

    r = ctx.rng
    k = int(r.integers(7))
    nb = int(r.choice([0, 2]))
    n = {0: 2, 1: 2, 2: 2, 3: 2, 4: 2, 5: 4, 6: 2}[k]
    x = r.uniform(0.1, 0.9, size=(n,) + ((nb,) if nb else ())) * r.choice([1, -1])
    s = {1: 2, 0: 2, 2: 4, 3: 1, 4: 1, 5: 1, 6: 2}[k]
    shape = tuple(int(v) for v in r.integers(1, 6, size=s))
    w = jnp.asarray(gen.cplx(r, *(((nb,) if nb else ()) + shape)))
    method = str(r.choice(["vanilla", "stable"]))
    ctx.note = {"k": k, "batch": nb, "shape": shape}
    mk = {
        0: lambda v: Dgate(0, v[0] + 1j * v[1]).fock_array(shape),
        1: lambda v: Sgate(0, v[0], v[1]).fock_array(shape),
        2: lambda v: BSgate((0, 1), v[0], v[1]).fock_array(shape, method=method),
        3: lambda v: SqueezedVacuum(0, v[0], v[1]).fock_array(shape),
        4: lambda v: Coherent(0, v[0] + 1j * v[1]).to_fock(shape).ansatz.array,
        5: lambda v: DisplacedSqueezed(0, v[0] + 1j * v[1], v[2], v[3]).fock_array(shape),
        6: lambda v: Dgate(0, v[0] + 1j * v[1]).to_fock(shape).ansatz.array,
    }[k]
    check_cost(ctx, lambda v: jnp.real(jnp.sum(w * mk(v))), x, f"component:{k}")
    ctx.sig("comp", k, nb, shape)


@monitor(quick=36, thorough=500)
def g_cost(ctx):
    """cost functions of circuits: fidelities, probabilities, moments, through both representations."""
    import jax.numpy as jnp

    from mrmustard.lab import (
        Amplifier, Attenuator, BSgate, Coherent, Dgate, Ggate, Number, Rgate, S2gate, Sgate, SqueezedVacuum,
        Vacuum,
    )

    r = ctx.rng
    k = int(r.integers(8))
    x = r.uniform(0.1, 0.8, size=4)
    ctx.note = {"k": k, "x": x.tolist()}

    def ket(v):
        return SqueezedVacuum(0, v[0], v[1]) >> Coherent(1, v[2] + 0.3j) >> BSgate((0, 1), v[3], v[1])

    def f(v):
        if k == 0:
            return jnp.real(ket(v).fidelity(Coherent(0, 0.2) >> Coherent(1, 0.1j)))
        if k == 1:
            return jnp.sum(jnp.real(ket(v).fock_distribution(4)) * jnp.arange(16) ** 0.5)
        if k == 2:
            return jnp.real((ket(v) >> Attenuator(0, 0.3 + 0.5 * v[0])).purity)
        if k == 3:
            return jnp.real((ket(v) >> Number(1, 2).dual).probability)
        if k == 4:
            s = ket(v).to_fock((6, 6)) >> Dgate(0, v[2]) >> Sgate(1, v[0], v[3])
            return jnp.real(jnp.sum(jnp.abs(s.fock_array((5, 4))) ** 2 * jnp.arange(4)))
        if k == 5:
            s = Vacuum((0, 1)) >> S2gate((0, 1), v[0], v[1]) >> Rgate(0, v[2]) >> Dgate(1, v[3]) >> Number(0, 1).dual
            return jnp.real(s.expectation(Number(1, 2).dm()))
        if k == 6:
            cov, mu, p = (ket(v) >> Amplifier(1, 1.0 + v[3])).phase_space(0)
            return jnp.real(jnp.sum(cov**2)) + jnp.real(jnp.sum(mu * jnp.arange(4)))
        s = ket(v).dm() >> Attenuator(0, v[2])
        return jnp.real(s.fock_array((3, 2, 3, 2))[1, 0, 1, 0] + s.fock_array((3, 2, 2, 3))[1, 1, 0, 2])

    check_cost(ctx, f, x, f"cost:{k}", h=1e-3)
    ctx.sig("cost", k, ctx.index % 5)
