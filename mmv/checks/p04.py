"""P04: ansatz arithmetic is pointwise arithmetic (random expression programs, shadow evaluator)."""

from __future__ import annotations

import numpy as np

from mmv import gen
from mmv.core import monitor
from mmv.ref import taylor

RULE = (
    "one case = one random program of ansatz operations; after every operation the value at random points is compared "
    "with an independent evaluator of the same expression; distinct = operation sequences with structure signatures"
)
ASSUMPTIONS = ["pointwise evaluator in extended precision; tolerance relative to the absolute series"]
MON = ["programs", "partial_eval", "call_broadcast", "decompose", "simplify", "equality", "array_programs",
       "array_equality", "scalar_value"]


def groups(tier):
    q = tier == "quick"
    return [
        {"backend": "numpy", "shards": 4 if q else 5, "monitors": MON},
        {"backend": "jax", "shards": 3, "monitors": MON, "label": "jax", "scale": 0.15},
    ]


class Shadow:
    """f(z) -> (values of shape batch, absolute scale); superposition already summed."""

    def __init__(self, n, batch, f, lin=False):
        self.n, self.batch, self.f, self.lin = n, tuple(batch), f, lin


def rand_poly(r, n=None, batch=None, lin=False, md=None, kmax=3):
    from mrmustard.physics.ansatz import PolyExpAnsatz

    n = int(r.integers(0, 4)) if n is None else n
    batch = gen.batch_shape(r, 2) if batch is None else tuple(batch)
    m = int(r.choice([0, 0, 1, 2])) if md is None else md
    der = tuple(int(x) for x in r.integers(1, kmax + 1, size=m))
    L = (int(r.integers(1, 4)),) if lin else ()
    full = batch + L
    D = n + m
    A, b, c = gen.sym(r, D, norm=0.5, batch=full), gen.vec(r, D, batch=full), gen.cplx(r, *(full + der))
    an = PolyExpAnsatz(A, b, c, lin_sup=lin)

    def f(z, A=A.copy(), b=b.copy(), c=c.copy()):
        v, s = np.zeros(full, complex), np.zeros(full)
        for i in np.ndindex(*full):
            v[i], s[i] = taylor.poly_eval(A[i], b[i], c[i], z)
        return (v.sum(-1), s.sum(-1)) if lin else (v, s)

    return an, Shadow(n, batch, f, lin), (A, b, c)


def compare(ctx, an, sh, key, npts=2):
    r = ctx.rng
    shape = () if not sh.lin else None
    want_batch = sh.batch
    got_batch = tuple(an.batch_shape[:-1] if an._lin_sup else an.batch_shape)
    ctx.ok(got_batch == want_batch, key + ":batch_shape", f"{got_batch} vs {want_batch} note={ctx.note}")
    ctx.ok(an.num_CV_vars == sh.n, key + ":num_vars", f"{an.num_CV_vars} vs {sh.n}")
    for _ in range(npts):
        z = gen.cplx(r, sh.n, scale=0.6)
        v, s = sh.f(z)
        got = np.asarray(an(*[complex(x) for x in z]))
        ctx.within(got, v, s + 1e-12, key, tol=1e-9)


def op_scale(r, x):
    k = complex(gen.cplx(r)) if r.integers(2) else float(r.normal())
    an, sh = x
    mode = int(r.integers(4))
    if mode == 0:
        return "mul", (an * k, Shadow(sh.n, sh.batch, lambda z: (sh.f(z)[0] * k, sh.f(z)[1] * abs(k)), sh.lin))
    if mode == 1:
        return "rmul", (k * an, Shadow(sh.n, sh.batch, lambda z: (sh.f(z)[0] * k, sh.f(z)[1] * abs(k)), sh.lin))
    if mode == 2:
        k += 1.5
        return "div", (an / k, Shadow(sh.n, sh.batch, lambda z: (sh.f(z)[0] / k, sh.f(z)[1] / abs(k)), sh.lin))
    return "neg", (-an, Shadow(sh.n, sh.batch, lambda z: (-sh.f(z)[0], sh.f(z)[1]), sh.lin))


def op_conj(r, x):
    an, sh = x

    def f(z):
        v, s = sh.f(np.conj(z))
        return np.conj(v), s

    return "conj", (an.conj, Shadow(sh.n, sh.batch, f, sh.lin))


def op_reorder(r, x):
    an, sh = x
    p = [int(i) for i in r.permutation(sh.n)]

    def f(z):  # G(z)_k = variable p[k] of F is argument k of G
        w = np.empty(sh.n, complex)
        for k, i in enumerate(p):
            w[i] = z[k]
        return sh.f(w)

    return "reorder", (an.reorder(p if r.integers(2) else tuple(p)), Shadow(sh.n, sh.batch, f, sh.lin))


def op_reorder_batch(r, x):
    an, sh = x
    if sh.lin:
        return op_conj(r, x)
    p = [int(i) for i in r.permutation(len(sh.batch))]

    def f(z):
        v, s = sh.f(z)
        return v.transpose(p), s.transpose(p)

    return "reorder_batch", (an.reorder_batch(p), Shadow(sh.n, [sh.batch[i] for i in p], f))


def op_and(r, x):
    an, sh = x
    lin = bool(r.integers(2))
    bn, tn, _ = rand_poly(r, n=int(r.integers(0, 3)), batch=gen.batch_shape(r, 1), lin=lin, kmax=2)

    def f(z, sh=sh, tn=tn, flip=False):
        v, s = sh.f(z[: sh.n])
        w, t = tn.f(z[sh.n:])
        return np.multiply.outer(v, w), np.multiply.outer(s, t)

    if r.integers(2):
        return "and", (an & bn, Shadow(sh.n + tn.n, sh.batch + tn.batch, f, sh.lin or tn.lin))
    g = lambda z: f(z, tn, sh)
    return "rand", (bn & an, Shadow(sh.n + tn.n, tn.batch + sh.batch, g, sh.lin or tn.lin))


def op_add(r, x):
    an, sh = x
    if sh.batch:
        return op_scale(r, x)
    bn, tn, _ = rand_poly(r, n=sh.n, batch=(), lin=bool(r.integers(2)))
    sub = bool(r.integers(2))
    sg = -1 if sub else 1

    def f(z):
        (v, s), (w, t) = sh.f(z), tn.f(z)
        return v + sg * w, s + t

    if r.integers(2):
        return "sub" if sub else "add", (an - bn if sub else an + bn, Shadow(sh.n, (), f, True))
    g = lambda z: (f(z)[0] * sg, f(z)[1])
    return "rsub" if sub else "radd", (bn - an if sub else bn + an, Shadow(sh.n, (), g, True))


def op_partial(r, x):
    an, sh = x
    if sh.n < 2:
        return op_conj(r, x)
    k = int(r.integers(sh.n))
    w = complex(gen.cplx(r, scale=0.6))
    args = [None] * sh.n
    args[k] = w
    out = an(*args) if r.integers(2) else an.eval(*args)
    return "partial", (out, Shadow(sh.n - 1, sh.batch, lambda z: sh.f(np.insert(z, k, w)), sh.lin))


def op_decompose(r, x):
    an, sh = x
    if an.num_derived_vars and int(np.sum(an.shape_derived_vars)) ** max(sh.n, 1) * np.prod(an.shape_derived_vars) > 3000:
        return op_conj(r, x)
    return "decompose", (an.decompose_ansatz(), sh)


def op_simplify(r, x):
    an, sh = x
    if sh.batch and sh.lin:
        return op_conj(r, x)
    return "simplify", (an.simplify(), sh)


OPS = [op_scale, op_conj, op_reorder, op_reorder_batch, op_and, op_add, op_add, op_partial, op_decompose, op_simplify]


@monitor(quick=420, thorough=9000)
def programs(ctx):
    r = ctx.rng
    an, sh, _ = rand_poly(r, lin=bool(r.integers(2)), batch=() if r.random() < 0.4 else gen.batch_shape(r, 2))
    x = (an, sh)
    names = [f"{an.num_CV_vars}.{an.shape_derived_vars}.{an.batch_shape}.{an._lin_sup}"]
    ctx.note = {"prog": names}
    compare(ctx, an, sh, "leaf")
    alive = []
    for _ in range(int(r.integers(1, 5))):
        op = OPS[r.integers(len(OPS))]
        if op is op_and and (x[0].num_vars > 6 or np.prod(x[0].c.shape) > 200):
            op = op_conj
        before = (x, [np.array(t) for t in x[0].triple])
        # several operands stay alive: their values must not change (checked at the end)
        alive.append(before)
        name, x = op(r, x)
        names.append(name)
        compare(ctx, x[0], x[1], "op:" + name)
    for (a, s), then in alive:
        ctx.unchanged(list(zip(a.triple, then)), "program:mutated-operand")
    ctx.sig(*names)


@monitor(quick=160, thorough=3000)
def partial_eval(ctx):
    """partial and full evaluation with batched points, None arguments and batch strings."""
    r = ctx.rng
    an, sh, (A, b, c) = rand_poly(r, n=int(r.integers(1, 4)), lin=bool(r.integers(2)))
    n = sh.n
    ev = [i for i in range(n) if r.random() < 0.6]
    labels = "abc"
    sizes = {"a": 2, "b": 3, "c": 2}
    specs, pts = [], []
    for i in ev:
        k = int(r.integers(0, 3))
        sp = "".join(str(v) for v in r.permutation(list(labels))[:k])
        specs.append(sp)
        pts.append(gen.cplx(r, *[sizes[s] for s in sp], scale=0.6))
    used = sorted(set("".join(specs)))
    out = "".join(str(v) for v in r.permutation(used)) if used else ""
    default = bool(r.integers(2))
    if default:  # documented default: outer product
        specs, off = [], 0
        for p in pts:
            specs.append("".join(chr(97 + off + i) for i in range(p.ndim)))
            off += p.ndim
        out = "".join(specs)
        sizes = {ch: d for p, sp in zip(pts, specs) for d, ch in zip(p.shape, sp)}
    args = [None] * n
    for i, p in zip(ev, pts):
        args[i] = p
    if not ev:
        return
    ctx.note = {"n": n, "ev": ev, "string": ",".join(specs) + "->" + out, "default": default, "batch": sh.batch}
    res = an.eval(*args, batch_string=None if default else ",".join(specs) + "->" + out)
    zb = tuple(sizes[ch] for ch in out)
    rest = [i for i in range(n) if i not in ev]
    zr = gen.cplx(r, len(rest), scale=0.6)
    full = len(ev) == n
    if full:
        got = np.asarray(res)
    else:
        ctx.ok(res.num_CV_vars == len(rest), "eval:vars")
        got = np.asarray(res(*[complex(v) for v in zr]))
    ctx.ok(got.shape == zb + sh.batch, "eval:shape", f"{got.shape} vs {zb + sh.batch} note={ctx.note}")
    for idx in np.ndindex(*zb):
        lab = dict(zip(out, idx))
        z = np.zeros(n, complex)
        for i, p, sp in zip(ev, pts, specs):
            z[i] = p[tuple(lab[ch] for ch in sp)]
        z[rest] = zr
        v, s = sh.f(z)
        ctx.within(got[idx], v, s + 1e-12, "eval:" + ("full" if full else "partial") + (":default" if default else ":string"), tol=1e-9)
    ctx.sig(full, default, ",".join(specs) + "->" + out, sh.lin, sh.batch, c.shape)


@monitor(quick=120, thorough=2500)
def call_broadcast(ctx):
    """__call__ on broadcastable batches of points."""
    r = ctx.rng
    an, sh, (A, b, c) = rand_poly(r, n=int(r.integers(1, 4)), lin=bool(r.integers(2)))
    pb = gen.batch_shape(r, 2)
    pts = []
    for _ in range(sh.n):
        s = tuple(d if r.random() < 0.7 else 1 for d in pb)
        s = s[int(r.integers(0, len(s) + 1)):] if r.random() < 0.4 else s
        pts.append(gen.cplx(r, *s, scale=0.6))
    bc = np.broadcast_arrays(*pts)
    ctx.note = {"points": [p.shape for p in pts], "batch": sh.batch, "der": c.shape}
    got = np.asarray(an(*pts))
    zb = bc[0].shape
    ctx.ok(got.shape == zb + sh.batch, "call:shape", f"{got.shape} vs {zb + sh.batch}")
    for i in np.ndindex(*zb):
        v, s = sh.f(np.array([p[i] for p in bc]))
        ctx.within(got[i], v, s + 1e-12, "call", tol=1e-9)
    ctx.sig("call", zb, sh.batch, sh.lin, c.shape)


@monitor(quick=80, thorough=1500)
def decompose(ctx):
    r = ctx.rng
    n = int(r.integers(0, 3))
    m = int(r.integers(0, 4))
    an, sh, (A, b, c) = rand_poly(r, n=n, md=m, lin=bool(r.integers(2)), kmax=3 if m < 3 else 2)
    ctx.note = {"n": n, "der": an.shape_derived_vars, "batch": an.batch_shape}
    d = an.decompose_ansatz()
    compare(ctx, d, sh, "decompose")
    ctx.ok(d.num_derived_vars <= max(m, n), "decompose:more-derived")
    ctx.sig("dec", n, an.shape_derived_vars, sh.batch, sh.lin)


@monitor(quick=100, thorough=2000)
def simplify(ctx):
    """superpositions with repeated exponential parts: same function, each exponential part once."""
    from mrmustard.physics.ansatz import PolyExpAnsatz

    r = ctx.rng
    n, m = int(r.integers(0, 3)), int(r.choice([0, 0, 1, 2]))
    der = tuple(int(x) for x in r.integers(1, 4, size=m))
    K, L = int(r.integers(1, 5)), int(r.integers(1, 8))
    A0, b0 = gen.sym(r, n + m, norm=0.5, batch=(K,), kind="dense"), gen.vec(r, n + m, batch=(K,), kind="dense")
    if r.random() < 0.4:  # distinguishable only through A
        b0[:] = b0[0]
    pick = r.integers(K, size=L)
    c = gen.cplx(r, *((L,) + der))
    an = PolyExpAnsatz(A0[pick], b0[pick], c, lin_sup=True)
    ctx.note = {"n": n, "der": der, "pick": pick.tolist()}

    def f(z):
        v, s = 0, 0
        for l in range(L):
            x, y = taylor.poly_eval(A0[pick[l]], b0[pick[l]], c[l], z)
            v, s = v + x, s + y
        return v, s

    out = an.simplify()
    compare(ctx, out, Shadow(n, (), f, True), "simplify")
    if n + m:
        ctx.ok(out.batch_shape == (len(set(pick.tolist())),), "simplify:terms", f"{out.batch_shape} for {pick}")
    compare(ctx, out.simplify(), Shadow(n, (), f, True), "simplify:twice")
    ctx.sig("simp", n, der, K, L)


@monitor(quick=120, thorough=2500)
def equality(ctx):
    """== is true for the same function data (terms of a superposition in any order), false for another function."""
    from mrmustard.physics.ansatz import PolyExpAnsatz

    r = ctx.rng
    lin = bool(r.integers(2))
    an, sh, (A, b, c) = rand_poly(r, n=int(r.integers(1, 4)), lin=lin, batch=() if lin else gen.batch_shape(r, 2))
    mk = lambda A, b, c: PolyExpAnsatz(A, b, c, lin_sup=lin)
    ctx.note = {"batch": an.batch_shape, "lin": lin, "der": an.shape_derived_vars}
    ctx.ok(an == mk(A.copy(), b.copy(), c.copy()), "eq:copy")
    if lin:
        p = r.permutation(A.shape[0])
        ctx.ok(an == mk(A[p], b[p], c[p]), "eq:permuted-terms")
    # a different function
    which = int(r.integers(3))
    A2, b2, c2 = A.copy(), b.copy(), np.array(c)
    n = sh.n
    bi = tuple(int(r.integers(s)) for s in an.batch_shape)
    if which == 0:
        i, j = int(r.integers(n)), int(r.integers(n))
        A2[bi][i, j] += 0.3
        A2[bi][j, i] = A2[bi][i, j]
    elif which == 1:
        b2[bi][int(r.integers(n))] += 0.3
    else:
        c2[bi] += 0.4
    ctx.ok(not (an == mk(A2, b2, c2)), f"eq:different:{'Abc'[which]}")
    if not lin and an.batch_shape and an.batch_shape[-1] > 1:
        p = np.roll(np.arange(an.batch_shape[-1]), 1)
        ax = len(an.batch_shape) - 1
        other = mk(np.take(A, p, ax), np.take(b, p, ax), np.take(c, p, ax))
        same = (np.allclose(np.take(A, p, ax), A) and np.allclose(np.take(b, p, ax), b) and np.allclose(np.take(c, p, ax), c))
        ctx.ok(bool(an == other) == same, "eq:permuted-batch", f"{ctx.note}")
    ctx.sig("eq", lin, an.batch_shape, an.shape_derived_vars, which)


@monitor(quick=60, thorough=1000)
def scalar_value(ctx):
    r = ctx.rng
    an, sh, (A, b, c) = rand_poly(r, lin=bool(r.integers(2)))
    v, s = sh.f(np.zeros(sh.n))
    ctx.note = {"n": sh.n, "batch": an.batch_shape, "der": an.shape_derived_vars, "lin": sh.lin}
    ctx.within(np.asarray(an.scalar), v, s + 1e-12, "scalar", tol=1e-9)
    ctx.sig("scalar", sh.n, sh.batch, sh.lin, an.shape_derived_vars)


# -- array ansatz ----------------------------------------------------------------------------------
@monitor(quick=260, thorough=5000)
def array_programs(ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz

    r = ctx.rng
    bs = gen.batch_shape(r, 2)
    core = tuple(int(x) for x in r.integers(1, 5, size=int(r.integers(0, 4))))
    X = np.asarray(gen.cplx(r, *(bs + core)))
    an = ArrayAnsatz(X.copy(), batch_dims=len(bs))
    names = [f"{bs}|{core}"]
    ctx.note = {"prog": names}
    nb = len(bs)

    def pad(Y, shape):
        out = np.zeros(Y.shape[:nb] + tuple(shape), complex)
        sl = tuple(slice(0, min(a, b)) for a, b in zip(Y.shape[nb:], shape))
        out[(..., *sl)] = Y[(..., *sl)]
        return out

    hist = []
    for _ in range(int(r.integers(1, 6))):
        hist.append((an, np.array(an.array)))
        k = int(r.integers(9))
        core = X.shape[nb:]
        if k == 0:
            w = complex(gen.cplx(r))
            an, X, nm = (an * w, X * w, "mul") if r.integers(2) else (w * an, w * X, "rmul")
        elif k == 1:
            w = complex(gen.cplx(r)) + 2
            an, X, nm = an / w, X / w, "div"
        elif k == 2:
            an, X, nm = -an, -X, "neg"
        elif k == 3:
            an, X, nm = an.conj, X.conj(), "conj"
        elif k == 4:
            p = [int(i) for i in r.permutation(len(core))]
            an, X, nm = an.reorder(p), X.transpose(list(range(nb)) + [nb + i for i in p]), "reorder"
        elif k == 5:
            p = [int(i) for i in r.permutation(nb)]
            an, X, nm = an.reorder_batch(p), X.transpose(p + list(range(nb, X.ndim))), "reorder_batch"
        elif k == 6:
            s = tuple(int(v) for v in r.integers(1, 6, size=len(core)))
            an, X, nm = an.reduce(s), pad(X, s), "reduce"
        elif k == 7:
            oc = tuple(int(v) for v in r.integers(1, 5, size=len(core))) if r.integers(2) else core
            Y = gen.cplx(r, *(X.shape[:nb] + oc))
            m = tuple(max(a, b) for a, b in zip(core, oc))
            sub = bool(r.integers(2))
            bn = ArrayAnsatz(Y.copy(), batch_dims=nb)
            an, X, nm = (an - bn, pad(X, m) - pad(Y, m), "sub") if sub else (an + bn, pad(X, m) + pad(Y, m), "add")
        else:
            if X.size > 300:
                continue
            oc = tuple(int(v) for v in r.integers(1, 4, size=int(r.integers(0, 3))))
            Y = gen.cplx(r, *(X.shape[:nb] + oc))
            Z = np.zeros(X.shape + oc, complex)
            for i in np.ndindex(*X.shape[:nb]):
                Z[i] = np.multiply.outer(X[i], Y[i])
            an, X, nm = an & ArrayAnsatz(Y, batch_dims=nb), Z, "and"
        names.append(nm)
        ctx.close(an.array, X, "array:" + nm, tol=1e-12, rel=1e-11)
        ctx.ok(an.batch_shape == X.shape[:nb] and an.core_shape == X.shape[nb:], "array:shape:" + nm)
    for a, then in hist:
        ctx.unchanged([(a.array, then)], "array:mutated")
    if X.ndim == nb:
        ctx.close(an.scalar, X, "array:scalar", tol=1e-12)
    else:
        ctx.close(an.scalar, X[(..., *((0,) * (X.ndim - nb)))], "array:scalar", tol=1e-12)
    ctx.sig(*names)


@monitor(quick=60, thorough=1000)
def array_equality(ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz

    r = ctx.rng
    bs = gen.batch_shape(r, 2)
    core = tuple(int(x) for x in r.integers(1, 5, size=int(r.integers(0, 4))))
    X = np.asarray(gen.cplx(r, *(bs + core)))
    an = ArrayAnsatz(X.copy(), batch_dims=len(bs))
    ctx.note = {"batch": bs, "core": core}
    ctx.ok(an == ArrayAnsatz(X.copy(), batch_dims=len(bs)), "aeq:copy")
    Y = np.array(X)
    Y[tuple(int(r.integers(s)) for s in X.shape)] += 0.2
    ctx.ok(not (an == ArrayAnsatz(Y, batch_dims=len(bs))), "aeq:different")
    ctx.sig("aeq", bs, core)
