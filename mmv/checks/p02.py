"""P02: closed-form gate arrays equal the quantum-mechanical matrix elements."""

from __future__ import annotations

import numpy as np

from mmv import gen
from mmv.core import monitor
from mmv.ref import taylor

RULE = (
    "one case = one gate/state, parameter set, cutoff tuple, batch shape and method, every entry compared with the "
    "independent Taylor oracle (and, on a subset, with a truncated operator exponential); distinct = signatures"
)
ASSUMPTIONS = ["operator exponentials are truncated at a cutoff where the compared corner has converged"]
MON = ["displacement", "squeezer", "squeezed", "beamsplitter", "component_dgate", "component_sgate",
       "component_sqvac", "component_bsgate", "operator_expm"]


def groups(tier):
    return [
        {"backend": "numpy", "shards": 3, "monitors": MON},
        {"backend": "numpy", "shards": 1, "monitors": MON, "label": "boundscheck", "cache": "bc",
         "env": {"NUMBA_BOUNDSCHECK": "1"}, "scale": 0.3},
        {"backend": "jax", "shards": 2, "monitors": MON, "label": "jax", "scale": 0.3},
    ]


def _math():
    from mrmustard import math

    return math


TOL = 1e-10


# -- reference triples, written from the textbook definitions --------------------------------------
def t_disp(al):
    return np.array([[0, 1], [1, 0]], complex), np.array([al, -np.conj(al)]), np.exp(-abs(al) ** 2 / 2)


def t_sq(r, phi):
    t, s = np.tanh(r), 1 / np.cosh(r)
    return (np.array([[-np.exp(1j * phi) * t, s], [s, np.exp(-1j * phi) * t]]), np.zeros(2, complex), np.sqrt(s))


def t_sqv(r, phi):
    return (np.array([[-np.exp(1j * phi) * np.tanh(r)]]), np.zeros(1, complex), np.sqrt(1 / np.cosh(r)))


def t_bs(th, phi):
    U = np.array([[np.cos(th), -np.exp(-1j * phi) * np.sin(th)], [np.exp(1j * phi) * np.sin(th), np.cos(th)]])
    Z = np.zeros((2, 2))
    return np.block([[Z, U], [U.T, Z]]), np.zeros(4, complex), 1.0


def angle(r):
    return float(r.choice([0.0, np.pi / 2, np.pi, -np.pi / 4, r.uniform(-7, 7), r.uniform(-7, 7), r.uniform(-7, 7)]))


def alpha(r):
    k = r.integers(8)
    if k == 0:
        return 0j
    if k == 1:
        return complex(r.uniform(-2, 2))
    if k == 2:
        return 1j * r.uniform(-2, 2)
    if k == 3:
        return complex(gen.cplx(r)) * 1e-3
    return complex(gen.cplx(r, scale=1.2))


def sqz(r):
    return float(r.choice([0.0, r.uniform(-1.5, 1.5), r.uniform(0, 1.2), 1e-4, r.uniform(0, 1.2)]))


def shape2(r):
    return tuple(int(x) for x in (r.integers(1, 25, size=2) if r.integers(2) else r.choice([1, 2, 3, 15], size=2)))


def shape4(r):
    while True:
        k = r.integers(3)
        if k == 0:
            s = tuple(int(x) for x in r.integers(1, 8, size=4))
        elif k == 1:
            a, b = (int(x) for x in r.integers(1, 9, size=2))
            s = (a, b, a, b)
        else:
            s = tuple(int(x) for x in r.choice([1, 2, 3, 10], size=4))
        if np.prod(s) < 2000:
            return s


def cmp(ctx, got, ref, key, tol=TOL):
    want, scale = ref
    ctx.within(np.asarray(got), want, scale + 1e-2, key, tol=tol)


def dev(x):
    return _math().astensor(x)


@monitor(quick=300, thorough=6000)
def displacement(ctx):
    r = ctx.rng
    al, s = alpha(r), shape2(r)
    ctx.note = {"alpha": al, "shape": s}
    got = _math().displacement(dev(al), shape=s)
    cmp(ctx, got, taylor.hermite(*t_disp(al), s), "displacement", tol=1e-9)
    ctx.sig("D", s)


@monitor(quick=300, thorough=6000)
def squeezer(ctx):
    r = ctx.rng
    a, p, s = sqz(r), angle(r), shape2(r)
    ctx.note = {"r": a, "phi": p, "shape": s}
    cmp(ctx, _math().squeezer(dev(a), dev(p), shape=s), taylor.hermite(*t_sq(a, p), s), "squeezer")
    ctx.sig("S", s)


@monitor(quick=150, thorough=3000)
def squeezed(ctx):
    r = ctx.rng
    a, p, s = sqz(r), angle(r), (int(r.integers(1, 40)),)
    ctx.note = {"r": a, "phi": p, "shape": s}
    cmp(ctx, _math().squeezed(dev(a), dev(p), shape=s), taylor.hermite(*t_sqv(a, p), s), "squeezed")
    ctx.sig("SV", s)


@monitor(quick=250, thorough=5000)
def beamsplitter(ctx):
    r = ctx.rng
    t, p, s = angle(r), angle(r), shape4(r)
    ref = taylor.hermite(*t_bs(t, p), s)
    for method in ("vanilla", "stable", "schwinger"):
        if method == "schwinger" and s[:2] != s[2:]:
            continue
        ctx.note = {"theta": t, "phi": p, "shape": s, "method": method}
        cmp(ctx, _math().beamsplitter(dev(t), dev(p), shape=s, method=method), ref, f"beamsplitter:{method}", tol=1e-8)
        ctx.sig("BS", method, s)


def batch_of(r, f, bs):
    return np.array([f(r) for _ in range(int(np.prod(bs)))]).reshape(bs)


def params(r, fs):
    """two parameter arrays, each scalar or of the common batch shape."""
    bs = gen.batch_shape(r, 2)
    out = [batch_of(r, f, bs) for f in fs]
    if len(fs) == 2 and bs and r.random() < 0.4:
        k = int(r.integers(2))
        out[k] = np.array(fs[k](r))
    return bs, out


def component_case(ctx, make, triple, fs, shape, key, extra=None):
    """fock_array of the component and of the generic conversion of the same triple."""
    from mrmustard.lab import CircuitComponent

    r = ctx.rng
    bs, ps = params(r, fs)
    ctx.note = {"batch": bs, "params": [p.tolist() if p.size < 4 else "batch" for p in ps], "shape": shape}
    comp = make([p.item() if p.ndim == 0 else p for p in ps])
    full = [np.broadcast_to(p, bs) for p in ps]
    kw = extra or {}
    got = np.asarray(comp.fock_array(shape, **kw))
    generic = np.asarray(CircuitComponent(comp.ansatz, comp.wires).fock_array(shape))
    ctx.ok(got.shape == bs + shape, key + ":shape", f"{got.shape} vs {bs + shape}")
    conv = np.asarray(comp.to_fock(shape).ansatz.array)
    for i in np.ndindex(*bs):
        ref = taylor.hermite(*triple(*[f[i] for f in full]), shape)
        cmp(ctx, got[i], ref, key, tol=1e-8)
        cmp(ctx, conv[i], ref, key + ":to_fock", tol=1e-8)
        want, scale = ref
        ctx.within(generic[i], want, scale + 1e-6, key + ":generic", tol=1e-9)
    if len(set(shape)) == 1:
        ctx.close(comp.fock_array(shape[0], **kw), got, key + ":int-shape", tol=1e-10)
    ctx.sig(key, bs, shape, *kw.values())


@monitor(quick=60, thorough=1500)
def component_dgate(ctx):
    from mrmustard.lab import Dgate

    m = int(ctx.rng.integers(6))
    component_case(ctx, lambda p: Dgate(m, p[0]), t_disp, [alpha], shape2(ctx.rng), "Dgate")


@monitor(quick=60, thorough=1500)
def component_sgate(ctx):
    from mrmustard.lab import Sgate

    m = int(ctx.rng.integers(6))
    component_case(ctx, lambda p: Sgate(m, p[0], p[1]), t_sq, [sqz, angle], shape2(ctx.rng), "Sgate")


@monitor(quick=60, thorough=1500)
def component_sqvac(ctx):
    from mrmustard.lab import SqueezedVacuum

    m = int(ctx.rng.integers(6))
    component_case(ctx, lambda p: SqueezedVacuum(m, p[0], p[1]), t_sqv, [sqz, angle],
                   (int(ctx.rng.integers(1, 30)),), "SqueezedVacuum")


@monitor(quick=60, thorough=1500)
def component_bsgate(ctx):
    from mrmustard.lab import BSgate

    r = ctx.rng
    s = shape4(r)
    method = str(r.choice(["vanilla", "stable", "schwinger"]))
    if s[:2] != s[2:] and method == "schwinger":
        s = s[:2] + s[:2]
    m = tuple(int(x) for x in sorted(r.choice(6, size=2, replace=False)))
    component_case(ctx, lambda p: BSgate(m, p[0], p[1]), t_bs, [angle, angle], s, "BSgate", {"method": method})


# -- truncated operator exponentials ---------------------------------------------------------------
_W = {}


def ladder(n):
    if n not in _W:
        _W[n] = np.diag(np.sqrt(np.arange(1, n)), 1).astype(complex)
    return _W[n]


@monitor(quick=40, thorough=500)
def operator_expm(ctx):
    """library arrays against expm of the generators in a truncated Fock space."""
    from scipy.linalg import expm

    from mrmustard.lab import BSgate, Dgate, Sgate, SqueezedVacuum

    r = ctx.rng
    k = int(r.integers(3))
    p = angle(r)
    if k == 0:
        al = complex(gen.cplx(r, scale=0.5))
        a = ladder(70)
        U = expm(al * a.conj().T - np.conj(al) * a)
        s = tuple(int(x) for x in r.integers(1, 9, size=2))
        ctx.note = {"gate": "D", "alpha": al, "shape": s}
        ctx.close(Dgate(0, al).fock_array(s), U[: s[0], : s[1]], "expm:D", tol=1e-7)
    elif k == 1:
        rr = float(r.uniform(-0.5, 0.5))
        a = ladder(90)
        z = rr * np.exp(1j * p)
        U = expm(0.5 * (np.conj(z) * a @ a - z * a.conj().T @ a.conj().T))
        s = tuple(int(x) for x in r.integers(1, 9, size=2))
        ctx.note = {"gate": "S", "r": rr, "phi": p, "shape": s}
        ctx.close(Sgate(0, rr, p).fock_array(s), U[: s[0], : s[1]], "expm:S", tol=1e-7)
        ctx.close(SqueezedVacuum(0, rr, p).fock_array(s[:1]), U[: s[0], 0], "expm:SV", tol=1e-7)
    else:
        th = angle(r)
        n = 14  # total-photon-number blocks < n are exact
        a = np.kron(ladder(n), np.eye(n))
        b = np.kron(np.eye(n), ladder(n))
        G = np.exp(1j * p) * a @ b.conj().T
        U = expm(th * (G - G.conj().T)).reshape(n, n, n, n)
        s = tuple(int(x) for x in r.integers(1, 7, size=4))
        ctx.note = {"gate": "BS", "theta": th, "phi": p, "shape": s}
        ctx.close(BSgate((0, 1), th, p).fock_array(s), U[: s[0], : s[1], : s[2], : s[3]], "expm:BS", tol=1e-7)
    ctx.sig("expm", k, s)
