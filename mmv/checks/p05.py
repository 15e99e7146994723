"""P05: contractions and traces are the exact Gaussian integrals."""

from __future__ import annotations

import numpy as np

from mmv import gen
from mmv.core import Skip, monitor
from mmv.ref import taylor
from mmv.checks.p04 import rand_poly

RULE = (
    "one case = one contraction / trace / integral whose every entry (Fock array of the result, or its values) was compared "
    "with a Fock-index sum or a variable-by-variable elimination; distinct = contraction pattern signatures"
)
ASSUMPTIONS = [
    "operands have ||A|| <= 0.45 so that the truncated Fock sum (cutoff 22-30) converges to 1e-8",
]
MON = ["contract_poly", "trace_poly", "contract_array", "trace_array", "cgi1", "cgi1_singular", "cgi2", "real_integral",
       "join_real", "join", "branch", "einsum"]


def groups(tier):
    q = tier == "quick"
    return [
        {"backend": "numpy", "shards": 5, "monitors": MON},
        {"backend": "jax", "shards": 2, "monitors": MON, "label": "jax", "scale": 0.15},
    ]


def foc(A, b, c, shape):
    v, s = taylor.poly_fock(A, b, c, shape)
    return np.asarray(v), np.asarray(s)


def result_fock(an, shape):
    """Fock arrays (summed over superposition) of a PolyExpAnsatz from its public triple."""
    A, b, c = (np.asarray(t) for t in an.triple)
    bs = an.batch_shape
    out = np.zeros(tuple(bs) + tuple(shape), complex)
    for i in np.ndindex(*bs):
        out[i] = foc(A[i], b[i], c[i], shape)[0]
    return out.sum(len(bs) - 1) if an._lin_sup else out


def loop_fock(A, b, c, batch, lin, shape):
    full = tuple(batch) + (A.shape[len(batch)],) if lin else tuple(batch)
    v, s = np.zeros(full + tuple(shape), complex), np.zeros(full + tuple(shape))
    for i in np.ndindex(*full):
        v[i], s[i] = foc(A[i], b[i], c[i], shape)
    if lin:
        v, s = v.sum(len(batch)), s.sum(len(batch))
    return v, s


def dup(lab):
    return "".join(lab)


def rand_labels(r, n, lo=0, hi=30):
    return [int(x) for x in r.choice(np.arange(lo, hi), size=n, replace=False)]


def esum(spec_ops, out):
    """einsum with arbitrary hashable labels."""
    labs = sorted({l for _, ls in spec_ops for l in ls} | set(out), key=str)
    ch = {l: i for i, l in enumerate(labs)}
    args = []
    for X, ls in spec_ops:
        args += [X, [ch[l] for l in ls]]
    return np.einsum(*args, [ch[l] for l in out])


@monitor(quick=140, thorough=5000)
def contract_poly(ctx):
    r = ctx.rng
    m = int(r.choice([0, 1, 1, 2, 2, 3], p=[0.15, 0.2, 0.2, 0.2, 0.2, 0.05]))
    N = {0: 1, 1: 26, 2: 18, 3: 10}[m]
    nrm = 0.5 if m < 3 else 0.25
    n1, n2 = m + int(r.integers(0, 3 if m < 2 else 2)), m + int(r.integers(0, 3 if m < 2 else 2))
    labels = rand_labels(r, n1 + n2 - m)
    common, l1, l2 = labels[:m], labels[m:n1], labels[n1:]
    core1, core2 = [int(x) for x in r.permutation(common + l1)], [int(x) for x in r.permutation(common + l2)]
    # batches
    pool = ["b", "i", "xx", "a0"]
    sizes = {"b": int(r.integers(1, 4)), "i": 2, "xx": 3, "a0": 2}
    nb = int(r.integers(0, 3))
    B = [str(x) for x in r.permutation(pool)]
    bt1, bt2 = B[:nb], B[int(r.integers(0, nb + 1)):][: int(r.integers(0, 3))]
    bt2 = [str(x) for x in r.permutation(bt2)]
    lin1, lin2 = bool(r.random() < 0.3), bool(r.random() < 0.3)
    md = 2 if m < 2 else 1
    a1, s1, (A1, b1, c1) = rand_poly(r, n=n1, batch=[sizes[x] for x in bt1], lin=lin1, md=int(r.integers(0, md + 1)), kmax=2)
    a2, s2, (A2, b2, c2) = rand_poly(r, n=n2, batch=[sizes[x] for x in bt2], lin=lin2, md=int(r.integers(0, md + 1)), kmax=2)
    # rescale so that the sum converges
    def shrink(A, b, c, n, lin, bt):
        from mrmustard.physics.ansatz import PolyExpAnsatz

        A, b = A * (nrm * 0.8 / 0.5), b * 0.7
        return PolyExpAnsatz(A, b, c, lin_sup=lin), A, b

    a1, A1, b1 = shrink(A1, b1, c1, n1, lin1, bt1)
    a2, A2, b2 = shrink(A2, b2, c2, n2, lin2, bt2)
    out_core = [int(x) for x in r.permutation([x for x in core1 if x in l1] + [x for x in core2 if x in l2])]
    out_bt = [str(x) for x in r.permutation(sorted(set(bt1) | set(bt2)))]
    mix = lambda bt, co: list(bt) + list(co)
    ctx.note = {"idx1": mix(bt1, core1), "idx2": mix(bt2, core2), "out": mix(out_bt, out_core), "lin": (lin1, lin2),
                "der": (a1.shape_derived_vars, a2.shape_derived_vars)}
    before = [(x, np.array(x)) for a in (a1, a2) for x in a.triple]
    got = a1.contract(a2, mix(bt1, core1), mix(bt2, core2), mix(out_bt, out_core))
    ctx.unchanged(before, "contract:mutated")
    want_batch = tuple(sizes[x] for x in out_bt)
    gb = tuple(got.batch_shape[:-1] if got._lin_sup else got.batch_shape)
    ctx.ok(gb == want_batch, "contract:batch", f"{gb} vs {want_batch} {ctx.note}")
    ctx.ok(got._lin_sup == (lin1 or lin2), "contract:lin")
    K = 3
    sh = lambda core: tuple(N if x in common else K for x in core)
    v1, t1 = loop_fock(A1, b1, c1, [sizes[x] for x in bt1], lin1, sh(core1))
    v2, t2 = loop_fock(A2, b2, c2, [sizes[x] for x in bt2], lin2, sh(core2))
    want = esum([(v1, bt1 + core1), (v2, bt2 + core2)], out_bt + out_core)
    scale = esum([(t1, bt1 + core1), (t2, bt2 + core2)], out_bt + out_core)
    cut = lambda v, bt, core: v[(slice(None),) * len(bt) + tuple(slice(0, N - 3) if x in common else slice(None) for x in core)]
    if m:
        prev = esum([(cut(v1, bt1, core1), bt1 + core1), (cut(v2, bt2, core2), bt2 + core2)], out_bt + out_core)
        tail = float(np.max(np.abs(want - prev), initial=0))
        if tail > 1e-6 * (1 + float(np.max(np.abs(want), initial=0))):
            raise Skip("Fock sum not converged")
    else:
        tail = 0
    ctx.within(result_fock(got, (K,) * len(out_core)), want, scale + 1e-12 + tail * 1e9, "contract:value", tol=1e-8)
    ctx.sig("cp", m, len(l1), len(l2), [core1.index(x) for x in common], [core2.index(x) for x in common], bt1, bt2, lin1, lin2)


@monitor(quick=110, thorough=4000)
def trace_poly(ctx):
    r = ctx.rng
    m = int(r.choice([0, 1, 2], p=[0.1, 0.6, 0.3]))
    N = {0: 1, 1: 34, 2: 16}[m]
    rest = int(r.integers(0, 3 if m < 2 else 2))
    n = 2 * m + rest
    lin = bool(r.random() < 0.4)
    batch = gen.batch_shape(r, 2 if m < 2 else 1)
    an, sh, (A, b, c) = rand_poly(r, n=n, batch=batch, lin=lin, md=int(r.integers(0, 3 if m < 2 else 2)), kmax=2)
    from mrmustard.physics.ansatz import PolyExpAnsatz

    nrm = 0.4 if m < 2 else 0.25
    A, b = A * (nrm / 0.5), b * 0.7
    s = float(r.choice([-1, -1, -1.7, -0.8]))
    an = PolyExpAnsatz(A, b, c, lin_sup=lin)
    p = [int(x) for x in r.permutation(n)]
    iz, izc = tuple(p[:m]), tuple(p[m:2 * m])
    ctx.note = {"n": n, "iz": iz, "izc": izc, "batch": batch, "lin": lin, "der": an.shape_derived_vars, "s": s}
    before = [(x, np.array(x)) for x in an.triple]
    got = an.trace(iz, izc) if s == -1 else an.trace(iz, izc, measure=s)
    ctx.unchanged(before, "trace:mutated")
    ctx.ok(tuple(got.batch_shape) == tuple(an.batch_shape) and got._lin_sup == lin, "trace:batch", f"{got.batch_shape} {ctx.note}")
    K = 3
    # rescale integration variables: z -> z/sqrt(-s)
    sc = np.ones(A.shape[-1])
    sc[list(iz + izc)] = 1 / np.sqrt(-s)
    A_, b_, c_ = A * sc[:, None] * sc[None, :], b * sc, c / (-s) ** m
    v, t = loop_fock(A_, b_, c_, batch, lin, tuple(N if i in iz + izc else K for i in range(n)))
    nb = len(batch)
    lab = ["B%d" % i for i in range(nb)] + list(range(n))
    for a, d in zip(iz, izc):
        lab[nb + d] = a
    out = ["B%d" % i for i in range(nb)] + [i for i in range(n) if i not in iz + izc]
    want, scale = esum([(v, lab)], out), esum([(t, lab)], out)
    sl = (slice(None),) * nb + tuple(slice(0, N - 3) if i in iz + izc else slice(None) for i in range(n))
    tail = float(np.max(np.abs(want - esum([(v[sl], lab)], out)), initial=0)) if m else 0.0
    if tail > 1e-6 * (1 + float(np.max(np.abs(want), initial=0))):
        raise Skip("Fock sum not converged")
    ctx.within(result_fock(got, (K,) * rest), want, scale + 1e-12 + tail * 1e9, "trace:value", tol=1e-8)
    ctx.sig("tp", iz, izc, n, batch, lin, an.shape_derived_vars, s)


@monitor(quick=160, thorough=4000)
def contract_array(ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz

    r = ctx.rng
    m = int(r.integers(0, 3))
    n1, n2 = m + int(r.integers(0, 3)), m + int(r.integers(0, 3))
    labels = rand_labels(r, n1 + n2 - m)
    common = labels[:m]
    core1, core2 = [int(x) for x in r.permutation(labels[:n1])], [int(x) for x in r.permutation(common + labels[n1:])]
    pool = [str(x) for x in r.permutation(["b", "i", "xx", "a0"])]
    sizes = {k: int(r.integers(1, 4)) for k in pool}
    nb = int(r.integers(0, 3))
    bt1 = pool[:nb]
    bt2 = [str(x) for x in r.permutation(pool[int(r.integers(0, nb + 1)):][: int(r.integers(0, 3))])]
    sh1, sh2 = [int(x) for x in r.integers(1, 6, size=n1)], [int(x) for x in r.integers(1, 6, size=n2)]
    X, Y = gen.cplx(r, *[sizes[x] for x in bt1], *sh1), gen.cplx(r, *[sizes[x] for x in bt2], *sh2)
    X, Y = np.asarray(X), np.asarray(Y)
    out_bt = [str(x) for x in r.permutation(sorted(set(bt1) | set(bt2)))]
    out_core = [int(x) for x in r.permutation([x for x in core1 + core2 if x not in common])]
    ctx.note = {"1": (bt1, core1, X.shape), "2": (bt2, core2, Y.shape), "out": (out_bt, out_core)}
    tup = bool(r.integers(2))
    mk = (lambda l: tuple(l)) if tup else (lambda l: list(l))
    a1, a2 = ArrayAnsatz(X.copy(), len(bt1)), ArrayAnsatz(Y.copy(), len(bt2))
    got = a1.contract(a2, mk(bt1 + core1), mk(bt2 + core2), mk(out_bt + out_core))
    ctx.unchanged([(a1.array, X), (a2.array, Y)], "contract_array:mutated")
    s1, s2 = [slice(None)] * X.ndim, [slice(None)] * Y.ndim
    for x in common:
        k = min(sh1[core1.index(x)], sh2[core2.index(x)])
        s1[len(bt1) + core1.index(x)] = s2[len(bt2) + core2.index(x)] = slice(0, k)
    want = esum([(X[tuple(s1)], bt1 + core1), (Y[tuple(s2)], bt2 + core2)], out_bt + out_core)
    ctx.ok(got.batch_dims == len(out_bt), "contract_array:batch")
    ctx.close(got.array, want, "contract_array", tol=1e-12, rel=1e-10)
    ctx.sig("ca", bt1, bt2, [core1.index(x) for x in common], [core2.index(x) for x in common], n1, n2)


@monitor(quick=140, thorough=3000)
def trace_array(ctx):
    from mrmustard.physics.ansatz import ArrayAnsatz

    r = ctx.rng
    m, rest = int(r.integers(0, 3)), int(r.integers(0, 3))
    n = 2 * m + rest
    batch = gen.batch_shape(r, 2)
    core = [int(x) for x in r.integers(1, 5, size=n)]
    X = np.asarray(gen.cplx(r, *batch, *core))
    p = [int(x) for x in r.permutation(n)]
    iz, izc = tuple(p[:m]), tuple(p[m:2 * m])
    ctx.note = {"core": core, "batch": batch, "iz": iz, "izc": izc}
    an = ArrayAnsatz(X.copy(), len(batch))
    got = an.trace(iz, izc)
    ctx.unchanged([(an.array, X)], "trace_array:mutated")
    nb = len(batch)
    lab = ["B%d" % i for i in range(nb)] + list(range(n))
    sl = [slice(None)] * X.ndim
    for a, d in zip(iz, izc):
        lab[nb + d] = a
        sl[nb + a] = sl[nb + d] = slice(0, min(core[a], core[d]))
    want = esum([(X[tuple(sl)], lab)], ["B%d" % i for i in range(nb)] + [i for i in range(n) if i not in iz + izc])
    ctx.close(got.array, want, "trace_array", tol=1e-12, rel=1e-10)
    ctx.ok(got.batch_dims == nb, "trace_array:batch")
    ctx.sig("ta", batch, core, iz, izc)


def poly_integral_value(A, b, c, iz, izc, s, zrest, nz):
    """int F(z) exp(s|z|^2) d2z/pi^m at the point zrest: eliminate the real coordinates one at a time, and take the derived
    derivatives as exact Taylor coefficients of the remaining Gaussian in the derived variables."""
    n = A.shape[-1]
    m = len(iz)
    A = A.astype(np.clongdouble).copy()
    b = b.astype(np.clongdouble).copy()
    for i, j in zip(iz, izc):
        A[i, j] += s
        A[j, i] += s
    T = np.eye(n, dtype=np.clongdouble)
    for i, j in zip(iz, izc):  # z = x+iy, z* = x-iy
        T[i, i], T[i, j], T[j, i], T[j, j] = 1, 1j, 1, -1j
    A, b = T.T @ A @ T, T.T @ b
    keep = list(range(n))
    logc = np.clongdouble(0)
    for i in list(iz) + list(izc):
        k = keep.index(i)
        a = A[k, k]
        if a.real > -1e-3:
            raise Skip("not integrable")
        logc += 0.5 * np.log(2 * np.pi / (-a)) - b[k] ** 2 / (2 * a)
        o = [q for q in range(len(keep)) if q != k]
        b = b[o] - A[o, k] * b[k] / a
        A = A[np.ix_(o, o)] - np.outer(A[o, k], A[k, o]) / a
        keep.pop(k)
    pref = np.exp(logc) / np.longdouble(np.pi) ** m
    return A.astype(complex), b.astype(complex), c * complex(pref)


@monitor(quick=110, thorough=3000)
def cgi1(ctx):
    """complex_gaussian_integral_1 on (A,b,log c) with any measure, batch and derived variables (strong couplings)."""
    from mrmustard import math
    from mrmustard.physics.gaussian_integrals import complex_gaussian_integral_1

    r = ctx.rng
    m, rest, nd = int(r.integers(0, 4)), int(r.integers(0, 3)), int(r.integers(0, 3))
    n = 2 * m + rest
    der = tuple(int(x) for x in r.integers(1, 4, size=nd))
    batch = gen.batch_shape(r, 2)
    s = float(r.choice([-1.0, -1.0, -2.3, -0.6, -1.5]))
    A = gen.sym(r, n + nd, norm=0.75 * abs(s), batch=batch)
    b, c = gen.vec(r, n + nd, batch=batch), np.asarray(gen.cplx(r, *(batch + der)))
    p = [int(x) for x in r.permutation(n)]
    iz, izc = tuple(p[:m]), tuple(p[m:2 * m])
    ctx.note = {"m": m, "rest": rest, "der": der, "batch": batch, "iz": iz, "izc": izc, "s": s}
    with np.errstate(all="ignore"):
        Ag, bg, cg = complex_gaussian_integral_1(
            (math.astensor(A), math.astensor(b), math.astensor(np.log(c))), iz if r.integers(2) else list(iz), izc, measure=s)
    ctx.ok(tuple(np.asarray(cg).shape) == batch + der, "cgi1:shape")
    for i in np.ndindex(*batch):
        Aw, bw, cw = poly_integral_value(A[i], b[i], c[i], iz, izc, s, None, n)
        ctx.close(np.asarray(Ag)[i], Aw, "cgi1:A", tol=1e-9)
        ctx.close(np.asarray(bg)[i], bw, "cgi1:b", tol=1e-9)
        ctx.close(np.asarray(cg)[i], cw, "cgi1:c", tol=1e-10)
    ctx.sig("cgi1", iz, izc, n, der, batch, s)


@monitor(quick=30, thorough=400)
def cgi1_singular(ctx):
    """one divergent batch element does not spoil the others; the divergent one is reported as infinite."""
    from mrmustard import math
    from mrmustard.physics.gaussian_integrals import complex_gaussian_integral_1

    r = ctx.rng
    K, rest = int(r.integers(2, 5)), int(r.integers(0, 2))
    n = 2 + rest
    A, b, c = gen.sym(r, n, norm=0.6, batch=(K,), kind="dense"), gen.vec(r, n, batch=(K,)), np.asarray(gen.cplx(r, K))
    k = int(r.integers(K))
    A[k] = 0
    A[k, 0, 1] = A[k, 1, 0] = 1.0  # exp(|z|^2) against exp(-|z|^2): divergent
    ctx.note = {"K": K, "k": k, "rest": rest}
    with np.errstate(all="ignore"):
        Ag, bg, cg = complex_gaussian_integral_1((math.astensor(A), math.astensor(b), math.astensor(np.log(c))), (0,), (1,))
    ctx.ok(not np.isfinite(np.asarray(cg)[k]), "cgi1:divergent-finite")
    for i in range(K):
        if i != k:
            Aw, bw, cw = poly_integral_value(A[i], b[i], c[i], (0,), (1,), -1.0, None, n)
            ctx.close(np.asarray(cg)[i], cw, "cgi1:spoiled-by-batch-neighbour")
            ctx.close(np.asarray(Ag)[i], Aw, "cgi1:spoiled-by-batch-neighbour")
            ctx.close(np.asarray(bg)[i], bw, "cgi1:spoiled-by-batch-neighbour")
    ctx.sig("sing", K, k, rest)


@monitor(quick=90, thorough=2500)
def cgi2(ctx):
    from mrmustard import math
    from mrmustard.physics.gaussian_integrals import complex_gaussian_integral_2

    r = ctx.rng
    m = int(r.integers(0, 3))
    n1, n2 = m + int(r.integers(0, 3)), m + int(r.integers(0, 3))
    d1, d2 = (tuple(int(x) for x in r.integers(1, 4, size=int(r.integers(0, 2)))) for _ in range(2))
    pool = list("bcxy")
    sizes = {k: int(r.integers(1, 4)) for k in pool}
    P = [str(x) for x in r.permutation(pool)]
    nb = int(r.integers(0, 3))
    bt1 = P[:nb]
    bt2 = [str(x) for x in r.permutation(P[int(r.integers(0, nb + 1)):][: int(r.integers(0, 3))])]
    out = [str(x) for x in r.permutation(sorted(set(bt1) | set(bt2)))]
    default = r.random() < 0.3
    if default:
        P2 = [x for x in pool if x not in bt1]
        bt2 = P2[: len(bt2)]
        out = bt1 + bt2
    s = float(r.choice([-1.0, -1.0, -2.0]))
    B1, B2 = tuple(sizes[x] for x in bt1), tuple(sizes[x] for x in bt2)
    A1, A2 = (gen.sym(r, n + len(d), norm=0.7, batch=B) for n, d, B in [(n1, d1, B1), (n2, d2, B2)])
    b1, b2 = (gen.vec(r, n + len(d), batch=B) for n, d, B in [(n1, d1, B1), (n2, d2, B2)])
    c1, c2 = (np.asarray(gen.cplx(r, *(B + d))) for d, B in [(d1, B1), (d2, B2)])
    i1, i2 = [int(x) for x in r.permutation(n1)[:m]], [int(x) for x in r.permutation(n2)[:m]]
    string = None if default else "".join(bt1) + "," + "".join(bt2) + "->" + "".join(out)
    ctx.note = {"n": (n1, n2), "d": (d1, d2), "idx": (i1, i2), "string": string}
    t = math.astensor
    with np.errstate(all="ignore"):
        Ag, bg, cg = (np.asarray(x) for x in complex_gaussian_integral_2(
            (t(A1), t(b1), t(c1)), (t(A2), t(b2), t(c2)), i1, i2, batch_string=string, measure=s))
    ctx.ok(cg.shape == tuple(sizes[x] for x in out) + d1 + d2, "cgi2:shape", f"{cg.shape} {ctx.note}")
    for i in np.ndindex(*[sizes[x] for x in out]):
        q = dict(zip(out, i))
        k1, k2 = tuple(q[x] for x in bt1), tuple(q[x] for x in bt2)
        # joined order: core1, core2, derived1, derived2
        D1, D2 = n1 + len(d1), n2 + len(d2)
        A = np.zeros((D1 + D2, D1 + D2), complex)
        A[:D1, :D1], A[D1:, D1:] = A1[k1], A2[k2]
        b = np.concatenate([b1[k1], b2[k2]])
        o = list(range(n1)) + list(range(D1, D1 + n2)) + list(range(n1, D1)) + list(range(D1 + n2, D1 + D2))
        A, b = A[np.ix_(o, o)], b[o]
        Aw, bw, cw = poly_integral_value(A, b, np.multiply.outer(c1[k1], c2[k2]), i1, [n1 + x for x in i2], s, None, n1 + n2)
        ctx.close(Ag[i], Aw, "cgi2:A", tol=1e-9)
        ctx.close(bg[i], bw, "cgi2:b", tol=1e-9)
        ctx.close(cg[i], cw, "cgi2:c", tol=1e-10)
    ctx.sig("cgi2", n1, n2, d1, d2, i1, i2, string)


@monitor(quick=100, thorough=2000)
def real_integral(ctx):
    from mrmustard import math
    from mrmustard.physics.gaussian_integrals import real_gaussian_integral

    r = ctx.rng
    n = int(r.integers(1, 6))
    G = r.normal(size=(n, n))
    A = -(G @ G.T) - 0.3 * np.eye(n)
    b, c = r.normal(size=n), r.normal() + 2
    m = int(r.integers(0, n + 1))
    idx = tuple(int(x) for x in r.permutation(n)[:m])
    ctx.note = {"n": n, "idx": idx}
    Ag, bg, cg = real_gaussian_integral((math.astensor(A), math.astensor(b), math.astensor(c)), idx)
    keep, Aw, bw, logc = list(range(n)), A.copy(), b.copy(), 0.0
    for i in idx:
        k = keep.index(i)
        a = Aw[k, k]
        logc += 0.5 * np.log(2 * np.pi / -a) - bw[k] ** 2 / (2 * a)
        o = [q for q in range(len(keep)) if q != k]
        bw = bw[o] - Aw[o, k] * bw[k] / a
        Aw = Aw[np.ix_(o, o)] - np.outer(Aw[o, k], Aw[k, o]) / a
        keep.pop(k)
    ctx.close(cg, np.asarray(c * np.exp(logc)), "real:c", tol=1e-10, rel=1e-7)
    if keep:
        ctx.close(Ag, Aw, "real:A", tol=1e-8)
        ctx.close(bg, bw, "real:b", tol=1e-8)
    ctx.sig("real", n, idx)


@monitor(quick=100, thorough=2000)
def join_real(ctx):
    """join_Abc_real multiplies the functions, identifying the variables idx1[k] = idx2[k]."""
    from mrmustard import math
    from mrmustard.physics.gaussian_integrals import join_Abc_real

    r = ctx.rng
    m = int(r.integers(1, 4))
    n1, n2 = m + int(r.integers(0, 3)), m + int(r.integers(0, 3))
    A1, A2 = gen.sym(r, n1), gen.sym(r, n2)
    b1, b2 = gen.vec(r, n1), gen.vec(r, n2)
    c1, c2 = complex(gen.cplx(r)), complex(gen.cplx(r))
    i1, i2 = tuple(int(x) for x in r.permutation(n1)[:m]), tuple(int(x) for x in r.permutation(n2)[:m])
    ctx.note = {"n": (n1, n2), "idx": (i1, i2)}
    t = math.astensor
    A, b, c = (np.asarray(x) for x in join_Abc_real((t(A1), t(b1), t(c1)), (t(A2), t(b2), t(c2)), i1, i2))
    o1, o2 = [i for i in range(n1) if i not in i1], [i for i in range(n2) if i not in i2]
    ctx.ok(A.shape[-1] == m + len(o1) + len(o2), "join_real:vars")
    for _ in range(2):
        x = gen.cplx(r, m + len(o1) + len(o2), scale=0.6)
        z1, z2 = np.zeros(n1, complex), np.zeros(n2, complex)
        z1[list(i1)], z2[list(i2)] = x[:m], x[:m]
        z1[o1], z2[o2] = x[m:m + len(o1)], x[m + len(o1):]
        f = lambda A, b, c, z: c * np.exp(0.5 * z @ A @ z + b @ z)
        ctx.close(f(A, b, c, x), np.asarray(f(A1, b1, c1, z1) * f(A2, b2, c2, z2)), "join_real", tol=1e-10)
    ctx.sig("jr", n1, n2, i1, i2)


@monitor(quick=80, thorough=1500)
def join(ctx):
    """join_Abc with every batch string is the product of the two functions on disjoint variables."""
    from mrmustard import math
    from mrmustard.physics.gaussian_integrals import join_Abc

    r = ctx.rng
    pool = list("pqrs")
    sizes = {k: int(r.integers(1, 4)) for k in pool}
    P = [str(x) for x in r.permutation(pool)]
    nb = int(r.integers(0, 4))
    bt1 = P[:nb]
    bt2 = [str(x) for x in r.permutation(P[int(r.integers(0, nb + 1)):][: int(r.integers(0, 3))])]
    out = [str(x) for x in r.permutation(sorted(set(bt1) | set(bt2)))]
    T = []
    for bt in (bt1, bt2):
        n, d = int(r.integers(0, 3)), tuple(int(x) for x in r.integers(1, 4, size=int(r.integers(0, 3))))
        B = tuple(sizes[x] for x in bt)
        c = np.asarray(gen.cplx(r, *(B + d)))
        if r.random() < 0.3:
            c = c * (r.random(c.shape) < 0.6)  # vanishing coefficients
        T.append((gen.sym(r, n + len(d), batch=B), gen.vec(r, n + len(d), batch=B), c, n, d))
    string = "".join(bt1) + "," + "".join(bt2) + "->" + "".join(out)
    ctx.note = {"string": string, "n": [t[3] for t in T], "d": [t[4] for t in T]}
    t = math.astensor
    with np.errstate(all="ignore"):
        A, b, c = (np.asarray(x) for x in join_Abc(tuple(t(x) for x in T[0][:3]), tuple(t(x) for x in T[1][:3]), string))
    (A1, b1, c1, n1, d1), (A2, b2, c2, n2, d2) = T
    ctx.ok(c.shape == tuple(sizes[x] for x in out) + d1 + d2, "join:shape", f"{c.shape} {ctx.note}")
    for i in np.ndindex(*[sizes[x] for x in out]):
        q = dict(zip(out, i))
        k1, k2 = tuple(q[x] for x in bt1), tuple(q[x] for x in bt2)
        z = gen.cplx(r, n1 + n2, scale=0.6)
        (u, s), (v, w) = taylor.poly_eval(A1[k1], b1[k1], c1[k1], z[:n1]), taylor.poly_eval(A2[k2], b2[k2], c2[k2], z[n1:])
        got, _ = taylor.poly_eval(A[i], b[i], c[i], z)
        ctx.within(got, np.asarray(u * v), s * w + 1e-12, "join:value", tol=1e-9)
    ctx.sig("join", string, n1, n2, d1, d2)


@monitor(quick=40, thorough=800)
def branch(ctx):
    """square-root branch: overlap of product Gaussian functions equals the product of the overlaps."""
    from mrmustard.physics.ansatz import PolyExpAnsatz

    r = ctx.rng
    m = int(r.integers(2, 5))
    lam = r.uniform(0.6, 0.95, size=m)
    if r.random() < 0.7:
        ph = np.arccos(lam) * r.choice([-1, 1]) * r.uniform(0.5, 1.3, size=m)
    else:
        ph = r.uniform(-np.pi, np.pi, size=m)
    a1, a2 = np.sqrt(lam) + 0j, np.sqrt(lam) * np.exp(1j * ph)
    z = np.zeros(m, complex)
    ctx.note = {"m": m, "lam": lam.tolist(), "ph": ph.tolist()}
    an1, an2 = PolyExpAnsatz(np.diag(a1), z, 1.0 + 0j), PolyExpAnsatz(np.diag(a2), z, 1.0 + 0j)
    got = complex(np.asarray(an1.contract(an2, list(range(m)), list(range(m)), []).scalar))
    want = np.prod(1 / np.sqrt(1 - a1 * a2))
    ctx.ok(min(abs(got - want), abs(got + want)) < 1e-7 * abs(want), "branch:magnitude", f"{got} vs {want}")
    outside = abs(np.sum(np.angle(1 - a1 * a2))) > np.pi
    ctx.ok(abs(got - want) < 1e-7 * abs(want), "branch:sign-beyond-pi" if outside else "branch:sign", f"{got} vs {want} {ctx.note}")
    ctx.sig("branch", m, outside, int(10 * np.sum(np.angle(1 - a1 * a2))))


@monitor(quick=90, thorough=3000)
def einsum(ctx):
    """mm_einsum over random networks, paths, path notations, Bargmann/Fock dimensions."""
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz
    from mrmustard.physics.mm_einsum import mm_einsum

    r = ctx.rng
    T = int(r.integers(2, 5))
    N, K = 16, 3
    # random network: every label appears in at most two operands
    core = [[] for _ in range(T)]
    lab = iter(rand_labels(r, 20))
    contracted, free = [], []
    edges = [(i, int(r.integers(i))) for i in range(1, T)]
    if r.random() < 0.4:
        e = tuple(int(x) for x in r.choice(T, size=2, replace=False))
        edges.append(e)
    for a, b in edges:
        l = next(lab)
        core[a].append(l), core[b].append(l), contracted.append(l)
    for a in range(T):
        if r.random() < 0.4 and len(core[a]) < 3:
            l = next(lab)
            core[a].append(l), free.append(l)
    core = [[int(x) for x in r.permutation(c)] for c in core]
    bpool = ["b", "zz"]
    sizes = {"b": 2, "zz": 3}
    bts = [[str(x) for x in r.permutation(bpool)[: int(r.choice([0, 0, 1, 2]))]] for _ in range(T)]
    if r.random() < 0.4:
        bts = [[] for _ in range(T)]
    out_b = [str(x) for x in r.permutation(sorted({x for b in bts for x in b}))]
    out_c = [int(x) for x in r.permutation(free)]
    mode = ["bargmann", "fock", "mixed-operands"][int(r.integers(3))]
    ops, vals = [], []
    for a in range(T):
        B = tuple(sizes[x] for x in bts[a])
        n = len(core[a])
        lin = bool(r.random() < 0.25)
        nd = int(r.choice([0, 0, 1]))
        der = (2,) * nd
        full = B + ((2,) if lin else ())
        A, b = gen.sym(r, n + nd, norm=0.3, batch=full), gen.vec(r, n + nd, batch=full, scale=0.5)
        c = np.asarray(gen.cplx(r, *(full + der)))
        shp = tuple(N if l in contracted else K for l in core[a])
        v, s = loop_fock(A, b, c, B, lin, shp)
        vals.append((v, s))
        if mode == "mixed-operands" and r.integers(2) or (mode == "fock" and r.random() < 0.3):
            ops.append(ArrayAnsatz(v.copy(), len(B)))
        else:
            ops.append(PolyExpAnsatz(A, b, c, lin_sup=lin))
    if mode == "bargmann":
        dims = {l: 0 for l in contracted + free}
    elif mode == "fock":
        dims = {**{l: N for l in contracted}, **{l: K for l in free}}
    else:
        if all(isinstance(o, ArrayAnsatz) for o in ops) and r.integers(2):
            dims = {}
        else:
            dims = {**{l: N for l in contracted}, **{l: K for l in free}}
    # random path
    alive, la, ssa, ua = list(range(T)), [], [], []
    ids, members, nxt = list(range(T)), [{i} for i in range(T)], T
    while len(ids) > 1:
        while True:
            i, j = (int(x) for x in r.choice(len(ids), size=2, replace=False))
            # outer products of Fock arrays go through a (huge) Bargmann form: only used on Bargmann networks
            lab_i, lab_j = ({l for a in members[q] for l in core[a]} for q in (i, j))
            if mode == "bargmann" or lab_i & lab_j:
                break
        la.append((i, j))
        ssa.append((ids[i], ids[j]))
        ua.append((int(r.choice(sorted(members[i]))), int(r.choice(sorted(members[j])))))
        new = members[i] | members[j]
        for k in sorted((i, j), reverse=True):
            ids.pop(k), members.pop(k)
        ids.append(nxt), members.append(new)
        nxt += 1
    kind = ["LA", "SSA", "UA"][int(r.integers(3))]
    path = {"LA": la, "SSA": ssa, "UA": ua}[kind]
    args = []
    for a in range(T):
        args += [ops[a], bts[a] + core[a]]
    ctx.note = {"idx": [b + c for b, c in zip(bts, core)], "out": out_b + out_c, "path": path, "kind": kind, "mode": mode,
                "ops": [type(o).__name__[0] + str(getattr(o, "_lin_sup", "")) for o in ops], "dims": dims}
    got = mm_einsum(*args, output=out_b + out_c, contraction_path=path, fock_dims=dims, path_type=kind)
    want = esum([(v, b + c) for (v, _), b, c in zip(vals, bts, core)], out_b + out_c)
    scale = esum([(s, b + c) for (_, s), b, c in zip(vals, bts, core)], out_b + out_c)
    val = result_fock(got, (K,) * len(out_c)) if isinstance(got, PolyExpAnsatz) else np.asarray(got.array)
    if mode != "bargmann":
        ctx.ok(isinstance(got, ArrayAnsatz) or not out_c, "einsum:type")
    else:
        ctx.ok(isinstance(got, PolyExpAnsatz), "einsum:type")
    ctx.within(val, want, scale + 1e-10, "einsum:" + mode, tol=1e-6)
    ctx.sig("einsum", ctx.note["idx"], ctx.note["out"], path, kind, mode)
