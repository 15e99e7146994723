"""P01: Fock amplitudes are the Taylor coefficients of the Bargmann function."""

from __future__ import annotations

import itertools

import numpy as np

from mmv import gen
from mmv.core import Skip, monitor
from mmv.ref import taylor

RULE = (
    "one case = one Bargmann triple, one shape and one strategy whose every entry was compared with the "
    "independent product-of-series oracle; distinct = (monitor, number of variables, shape, structure) signatures"
)
ASSUMPTIONS = ["long-double product-of-series oracle; tolerance relative to the absolute series (conditioning)"]

NP = ["unbatched", "batched", "broadcast_b", "binomial", "diagonal", "leftover", "fock_array", "to_fock_roundtrip"]


def groups(tier):
    q = tier == "quick"
    return [
        {"backend": "numpy", "shards": 3 if q else 4, "monitors": NP},
        {"backend": "numpy", "shards": 2 if q else 2, "monitors": NP, "label": "boundscheck", "cache": "bc",
         "env": {"NUMBA_BOUNDSCHECK": "1"}, "scale": 0.35},
        {"backend": "jax", "shards": 2, "monitors": NP, "label": "jax", "scale": 0.15},
    ]


def _math():
    from mrmustard import math

    return math


TOL = 1e-12


def cmp(ctx, got, ref, key, floor=1e-13):
    want, scale = ref
    ctx.within(np.asarray(got), want, scale + floor, key, tol=TOL)


def dev(ctx, x):
    """to the backend's arrays."""
    return _math().astensor(x)


@monitor(quick=260, thorough=6000)
def unbatched(ctx):
    math, r = _math(), ctx.rng
    D = int(r.integers(1, 7))
    shape = gen.shape(r, D, maxsize=700)
    A, b, c = gen.sym(r, D, norm=r.choice([0.3, 0.9, 1.3])), gen.vec(r, D), complex(gen.cplx(r))
    stable = bool(r.integers(2))
    ctx.note = {"D": D, "shape": shape, "stable": stable}
    ref = taylor.hermite(A, b, c, shape)
    Ad, bd, cd = dev(ctx, A), dev(ctx, b), dev(ctx, np.array(c))
    got = math.hermite_renormalized(Ad, bd, cd, shape=shape, stable=stable)
    cmp(ctx, got, ref, "unbatched:" + ("stable" if stable else "vanilla"))
    if ctx.backend == "numpy" and r.random() < 0.4:
        out = np.full(shape, np.nan if r.integers(2) else 3.3, dtype=complex)
        got2 = math.hermite_renormalized(Ad, bd, cd, shape=shape, stable=stable, out=out)
        cmp(ctx, got2, ref, "unbatched:out-return")
        cmp(ctx, out, ref, "unbatched:out-buffer")
    ctx.unchanged([(Ad, A), (bd, b), (cd, np.array(c))], "unbatched:mutated")
    ctx.sig("unb", stable, shape)


def _pair(rng):
    """shape of the index space with one more axis."""


@monitor(quick=200, thorough=4000)
def batched(ctx):
    math, r = _math(), ctx.rng
    D = int(r.integers(1, 5))
    shape = gen.shape(r, D, maxsize=200, hi=5)
    bs = gen.batch_shape(r) or (int(r.integers(1, 5)),)
    A, b, c = gen.sym(r, D, batch=bs), gen.vec(r, D, batch=bs), gen.cplx(r, *bs)
    stable = bool(r.integers(2))
    ctx.note = {"batch": bs, "shape": shape, "stable": stable}
    Ad, bd, cd = dev(ctx, A), dev(ctx, b), dev(ctx, c)
    kw = {}
    if ctx.backend == "numpy" and r.random() < 0.3:
        kw["out"] = np.full(bs + shape, np.nan, dtype=complex)
    got = np.asarray(math.hermite_renormalized(Ad, bd, cd, shape=shape, stable=stable, **kw))
    ctx.ok(got.shape == bs + shape, "batched:shape", f"{got.shape} vs {bs + shape}")
    for i in np.ndindex(*bs):
        ref = taylor.hermite(A[i], b[i], c[i], shape)
        cmp(ctx, got[i], ref, "batched")
        if kw:
            cmp(ctx, kw["out"][i], ref, "batched:out")
    ctx.unchanged([(Ad, A), (bd, b), (cd, c)], "batched:mutated")
    ctx.sig("bat", stable, bs, shape)


@monitor(quick=100, thorough=2500)
def broadcast_b(ctx):
    math, r = _math(), ctx.rng
    D = int(r.integers(1, 5))
    shape = gen.shape(r, D, maxsize=200, hi=5)
    bs = gen.batch_shape(r) or (int(r.integers(1, 5)),)
    A, b, c = gen.sym(r, D), gen.vec(r, D, batch=bs), np.array(complex(gen.cplx(r)))
    stable = bool(r.integers(2))
    ctx.note = {"batch": bs, "shape": shape, "stable": stable}
    Ad, bd, cd = dev(ctx, A), dev(ctx, b), dev(ctx, c)
    got = np.asarray(math.hermite_renormalized(Ad, bd, cd, shape=shape, stable=stable))
    ctx.ok(got.shape == bs + shape, "broadcast:shape", f"{got.shape} vs {bs + shape}")
    for i in np.ndindex(*bs):
        cmp(ctx, got[i], taylor.hermite(A, b[i], c, shape), "broadcast")
    ctx.unchanged([(Ad, A), (bd, b), (cd, c)], "broadcast:mutated")
    ctx.sig("brd", stable, bs, shape)


@monitor(quick=90, thorough=2000)
def binomial(ctx):
    math, r = _math(), ctx.rng
    D = int(r.integers(1, 5))
    shape = gen.shape(r, D, maxsize=200, hi=6)
    A, b, c = gen.sym(r, D), gen.vec(r, D), complex(gen.cplx(r, scale=0.5))
    want, scale = taylor.hermite(A, b, c, shape)
    w = np.indices(shape).sum(axis=0)
    full = sum(shape) - D + 1
    case = int(r.integers(3))
    norms = np.array([np.sum(np.abs(want[w <= k]) ** 2) for k in range(full)])
    if case == 0:
        max_l2, gc, last = 1e30, full, full - 1
    elif case == 1:
        gc = int(r.integers(1, full + 1))
        max_l2, last = 1e30, gc - 1
    else:
        k = int(r.integers(0, full))
        max_l2, gc = float(norms[k] * (1 - 1e-4)), full
        # the filling stops after the first subspace whose cumulative norm exceeds max_l2
        # (the vacuum alone is never a reason to stop before the first subspace)
        over = np.nonzero(norms[1:] > max_l2)[0]
        last = int(over[0]) + 1 if len(over) else full - 1
        if np.any(np.abs(norms / max_l2 - 1) < 1e-6):
            raise Skip
    ctx.note = {"shape": shape, "case": case, "global_cutoff": gc, "max_l2": max_l2}
    Ad, bd, cd = dev(ctx, A), dev(ctx, b), dev(ctx, np.array(c))
    got = math.hermite_renormalized_binomial(Ad, bd, cd, shape=shape, max_l2=max_l2, global_cutoff=gc)
    keep = w <= last
    if case == 2:
        # entries beyond the stop are allowed to be absent, entries present must be right
        g = np.asarray(got)
        ctx.ok(g.shape == shape, "binomial:shape")
        present = g != 0
        cmp(ctx, np.where(present, g, 0), (np.where(present, want, 0), scale), "binomial:l2")
        kept = float(np.sum(np.abs(g) ** 2))
        ctx.ok(kept >= min(max_l2, norms[-1]) * (1 - 1e-7), "binomial:l2-norm-not-reached",
               f"kept {kept} < {max_l2}")
    else:
        cmp(ctx, got, (np.where(keep, want, 0), scale), "binomial")
    ctx.unchanged([(Ad, A), (bd, b)], "binomial:mutated")
    ctx.sig("bin", case, shape)


def _dm_triple(r, M, phys):
    if phys:
        # Bargmann triple of a random mixed state: built from a Hermitian-symmetric (A,b)
        X = gen.sym(r, M, norm=0.5)
        Y = gen.cplx(r, M, M)
        Y = Y @ Y.conj().T
        Y = Y / np.linalg.norm(Y, 2) * 0.3
        A = np.block([[X.conj(), Y.conj()], [Y, X]])
        A = (A + A.T) / 2
        beta = gen.vec(r, M)
        b = np.concatenate([beta.conj(), beta])
        return A, b, complex(abs(complex(gen.cplx(r))) + 0.1)
    return gen.sym(r, 2 * M, norm=0.8), gen.vec(r, 2 * M), complex(gen.cplx(r))


@monitor(quick=110, thorough=2500)
def diagonal(ctx):
    math, r = _math(), ctx.rng
    M = int(r.choice([1, 2, 3], p=[0.3, 0.4, 0.3]))
    cut = gen.shape(r, M, maxsize={1: 12, 2: 30, 3: 24}[M], hi=6)
    phys = bool(r.integers(2))
    A, b, c = _dm_triple(r, M, phys)
    nb = int(r.integers(0, 4)) if r.random() < 0.5 else 0
    bb = np.stack([b] + [gen.vec(r, 2 * M, kind="dense") for _ in range(nb - 1)], axis=-1) if nb else b
    reord = bool(r.integers(2))
    ctx.note = {"M": M, "cut": cut, "phys": phys, "nb": nb, "reord": reord}
    perm = [i for m in range(M) for i in (m, m + M)]  # pair order (m, m')
    A2, b2 = (A, bb) if reord else (A[np.ix_(perm, perm)], bb[perm])
    Ad, bd, cd = dev(ctx, A2), dev(ctx, b2), dev(ctx, np.array(c))
    got = np.asarray(math.hermite_renormalized_diagonal(Ad, bd, cd, cut, reorderedAB=reord))
    for k in range(max(nb, 1)):
        bk = bb[:, k] if nb else b
        full, sc = taylor.hermite(A, bk, c, cut + cut)
        idx = np.indices(cut)
        sel = tuple(idx) + tuple(idx)
        cmp(ctx, got[..., k] if nb else got, (full[sel], sc[sel]), "diagonal" + (":batch" if nb else ""))
    ctx.unchanged([(Ad, A2), (bd, b2), (cd, np.array(c))], "diagonal:mutated")
    ctx.sig("dia", phys, reord, nb, cut)


@monitor(quick=80, thorough=2000)
def leftover(ctx):
    math, r = _math(), ctx.rng
    M = int(r.choice([2, 3, 4], p=[0.45, 0.4, 0.15]))
    oc = int(r.integers(0, {2: 6, 3: 3, 4: 2}[M]))
    pnr = tuple(int(x) for x in r.integers(0, {2: 6, 3: 3, 4: 2}[M], size=M - 1))
    phys = bool(r.integers(2))
    A, b, c = _dm_triple(r, M, phys)
    reord = bool(r.random() < 0.7)
    ctx.note = {"M": M, "oc": oc, "pnr": pnr, "phys": phys, "reord": reord}
    perm = [i for m in range(M) for i in (m, m + M)]
    A2, b2 = (A, b) if reord else (A[np.ix_(perm, perm)], b[perm])
    Ad, bd, cd = dev(ctx, A2), dev(ctx, b2), dev(ctx, np.array(c))
    got = math.hermite_renormalized_1leftoverMode(Ad, bd, cd, oc, pnr, reorderedAB=reord)
    sh = (oc + 1, *(p + 1 for p in pnr))
    full, sc = taylor.hermite(A, b, c, sh + sh)  # indices (n0,n1..,m0,m1..)
    want = np.zeros((oc + 1, oc + 1, *(p + 1 for p in pnr)), complex)
    scale = np.zeros(want.shape)
    for n in np.ndindex(*[p + 1 for p in pnr]):
        want[(slice(None), slice(None), *n)] = full[(slice(None), *n, slice(None), *n)]
        scale[(slice(None), slice(None), *n)] = sc[(slice(None), *n, slice(None), *n)]
    cmp(ctx, got, (want, scale), "leftover" + ("" if reord else ":reordered-input"))
    ctx.unchanged([(Ad, A2), (bd, b2), (cd, np.array(c))], "leftover:mutated")
    ctx.sig("left", reord, oc, pnr)


def random_wires(r, D):
    """four disjoint-position mode sets with D wires in total."""
    while True:
        groups = [[], [], [], []]
        for _ in range(D):
            groups[r.integers(4)].append(0)
        labels = [sorted(r.choice(12, size=len(g), replace=False).tolist()) for g in groups]
        return [tuple(int(x) for x in l) for l in labels]


def random_component(ctx, maxD=4, maxm=2, allow_lin=True, allow_batch=True):
    """component with random wires and a random polyexp ansatz -> (cc, list over batch of list of terms, batch, D)."""
    from mrmustard.lab import CircuitComponent
    from mrmustard.physics.ansatz import PolyExpAnsatz
    from mrmustard.physics.wires import Wires

    r = ctx.rng
    D = int(r.integers(1, maxD + 1))
    m = int(r.choice([0, 1, 2], p=[0.5, 0.3, 0.2])) if maxm >= 2 else 0
    ds = tuple(int(x) for x in r.integers(1, 4, size=m))
    bs = gen.batch_shape(r, 2) if allow_batch else ()
    lin = bool(allow_lin and r.random() < 0.35)
    fbs = bs + ((int(r.integers(1, 4)),) if lin else ())
    A = gen.sym(r, D + m, batch=fbs)
    b = gen.vec(r, D + m, batch=fbs)
    c = gen.cplx(r, *fbs, *ds)
    w = random_wires(r, D)
    cc = CircuitComponent(PolyExpAnsatz(A, b, c, lin_sup=lin), Wires(*[set(x) for x in w]))
    ctx.note = {"wires": w, "derived": ds, "batch": bs, "lin_sup": fbs[-1] if lin else 0}
    return cc, (A, b, c), bs, lin, D, ds


def oracle_fock(A, b, c, bs, lin, shape):
    want = np.zeros(bs + shape, complex)
    scale = np.zeros(bs + shape)
    for i in np.ndindex(*bs):
        terms = [(A[i], b[i], c[i])] if not lin else list(zip(A[i], b[i], c[i]))
        for t in terms:
            g, s = taylor.poly_fock(*t, shape)
            want[i] += g
            scale[i] += s
    return want, scale


@monitor(quick=170, thorough=3500)
def fock_array(ctx):
    r = ctx.rng
    cc, (A, b, c), bs, lin, D, ds = random_component(ctx)
    shape = gen.shape(r, D, maxsize=120, hi=5)
    ctx.note["shape"] = shape
    ref = oracle_fock(A, b, c, bs, lin, shape)
    before = [np.array(x) for x in cc.ansatz.triple]
    got = cc.fock_array(shape)
    cmp(ctx, got, ref, "fock_array" + (":lin_sup" if lin else "") + (":derived" if ds else ""))
    f = cc.to_fock(shape)
    ctx.ok(f.wires == cc.wires, "to_fock:wires")
    ctx.ok(f.ansatz.batch_dims == len(bs), "to_fock:batch_dims", f"{f.ansatz.batch_dims} vs {bs}")
    cmp(ctx, f.ansatz.array, ref, "to_fock")
    ctx.ok(tuple(f.manual_shape) == tuple(shape), "to_fock:manual_shape",
           f"{f.manual_shape} vs {shape}")
    if len(set(shape)) == 1:
        cmp(ctx, cc.fock_array(shape[0]), ref, "fock_array:int-shape")
    # smaller / larger requests of the Fock object slice / zero-pad it
    s2 = tuple(int(x) for x in np.maximum(1, np.array(shape) + r.integers(-2, 3, size=D)))
    w2, sc2 = np.zeros(bs + s2, complex), np.zeros(bs + s2)
    sl = tuple(slice(0, min(a, b_)) for a, b_ in zip(shape, s2))
    w2[(..., *sl)], sc2[(..., *sl)] = ref[0][(..., *sl)], ref[1][(..., *sl)]
    cmp(ctx, f.fock_array(s2), (w2, sc2), "fock_array:resize")
    ctx.unchanged(list(zip(cc.ansatz.triple, before)), "fock_array:mutated")
    ctx.sig("fa", shape, ds, bs, lin)


@monitor(quick=80, thorough=2000)
def to_fock_roundtrip(ctx):
    """to_bargmann of any Fock array is the polynomial with these Taylor coefficients."""
    from mrmustard.lab import CircuitComponent
    from mrmustard.physics.ansatz import ArrayAnsatz
    from mrmustard.physics.wires import Wires

    r = ctx.rng
    D = int(r.integers(1, 4))
    shape = gen.shape(r, D, maxsize=40, hi=4)
    bs = gen.batch_shape(r, 2)
    arr = gen.cplx(r, *bs, *shape)
    w = random_wires(r, D)
    cc = CircuitComponent(ArrayAnsatz(arr, batch_dims=len(bs)), Wires(*[set(x) for x in w]))
    ctx.note = {"shape": shape, "batch": bs, "wires": w}
    barg = cc.to_bargmann()
    ctx.ok(barg.wires == cc.wires, "to_bargmann:wires")
    A, b, c = (np.asarray(x) for x in barg.ansatz.triple)
    s2 = tuple(int(x) for x in np.maximum(1, np.array(shape) + r.integers(-1, 3, size=D)))
    want, sc = np.zeros(bs + s2, complex), np.ones(bs + s2)
    sl = tuple(slice(0, min(x, y)) for x, y in zip(shape, s2))
    want[(..., *sl)] = arr[(..., *sl)]
    cmp(ctx, barg.fock_array(s2), (want, sc), "roundtrip:fock_array")
    # value of the Bargmann function at a point
    z = gen.cplx(r, D, scale=0.7)
    val = np.asarray(barg.ansatz(*z))
    ref = np.zeros(bs, complex)
    coef = np.ones((), complex)
    for d in range(D):
        v = z[d] ** np.arange(shape[d]) / np.sqrt(np.cumprod(np.concatenate([[1.0], np.arange(1, shape[d])])))
        coef = np.multiply.outer(coef, v)
    ref = np.sum(arr * coef, axis=tuple(range(len(bs), len(bs) + D)))
    cmp(ctx, val, (ref, np.abs(ref) + np.sum(np.abs(coef))), "roundtrip:value")
    ctx.sig("rt", shape, bs)
