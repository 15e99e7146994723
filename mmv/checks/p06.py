"""P06: circuits compose as quantum mechanics prescribes."""

from __future__ import annotations

import numpy as np

from mmv import circ, gen
from mmv.core import Skip, monitor
from mmv.ref import fock as F
from mmv.ref import ps as G

RULE = (
    "one case = one circuit (or gate matrix, operator product, adjoint/dual) executed by the library and, in lockstep, by an independent "
    "phase-space or truncated-Fock simulator; events = compared numbers; distinct = circuit signatures"
)
ASSUMPTIONS = [
    "non-Gaussian circuits: |alpha| <= 0.4, |r| <= 0.25 so that a cutoff of 14-18 leaves the lowest amplitudes converged to 1e-5",
    "components built from symplectic matrices are compared up to a global phase (the symplectic group does not fix it)",
]
MON = ["each_component", "gauss_circuit", "fock_circuit", "fock_circuit_mixed", "gate_matrix", "channel_map", "adjoint_dual", "operator_product",
       "prob_chain", "hbar_independence"]


def groups(tier):
    return [
        {"backend": "numpy", "shards": 6, "monitors": MON},
        {"backend": "jax", "shards": 2, "monitors": MON, "label": "jax", "scale": 0.12},
    ]


def hbar(r):
    return float(r.choice([1.0, 1.0, 2.0, 0.5, 1.37]))


def check_ps(ctx, got, p, key, h):
    """library state against PS."""
    from mrmustard.lab import Ket, DM

    ctx.ok(isinstance(got, (Ket, DM)), key + ":class", f"{type(got)} {ctx.note}")
    ctx.ok(list(got.modes) == p.modes, key + ":modes", f"{got.modes} != {p.modes} {ctx.note}")
    cov, mu, co = (np.asarray(x) for x in got.phase_space(0))
    ctx.close(cov, p.V, key + ":cov", tol=1e-7, rel=1e-7)
    ctx.close(mu, p.mu, key + ":mean", tol=1e-7, rel=1e-7)
    ctx.close(co, np.asarray(p.w), key + ":weight", tol=1e-7 * max(p.w, 1e-3), rel=1e-7)


@monitor(8, 96)
def each_component(ctx):
    """every Gaussian state, gate, channel and projection in turn on a generic state, at several values of hbar."""
    from mrmustard import settings

    r = ctx.rng
    h = [0.5, 2.0, 1.0, 1.37][ctx.index % 4]
    w = {"a": 0.9, "r": 0.6, "nbar": 1.0, "g": 1.6, "hbar": h, "N": 1}
    for kind, lst in circ.GAUSS.items():
        for f, k in lst:
            labels = [int(x) for x in r.choice(circ.LABELS, size=4, replace=False)]
            n = k or int(r.integers(1, 3))
            if kind == "state":
                ops = [f(r, labels[:n] if f is not circ.st_vacuum else sorted(labels[:n]), w)]
                rest = [labels[3]]
            else:
                rest = labels[:3] if kind == "end" else labels[:max(2, n)]
                ops = []
            first = [circ.st_dsq(r, [m], w) for m in rest] + ([circ.g_bs(r, rest[:2], w)] if len(rest) > 1 else [])
            if bool(r.integers(2)) and kind != "state":
                first.append(circ.c_att(r, [rest[0]], w))
            if kind != "state":
                ms = [int(m) for m in r.choice(rest, size=n, replace=False)]
                if f is circ.g_id:
                    ms = sorted(ms)
                first.append(f(r, ms, w))
            ops = ops + first
            p = circ.run_ps(ops, h)
            if p.w < 1e-7 or np.max(np.abs(p.V)) > 300 or not p.modes:
                continue
            ctx.note = {"ops": [repr(o) for o in ops], "hbar": h}
            with settings(HBAR=h):
                got = circ.run_mm(ops)
                check_ps(ctx, got, p, "each:" + f.__name__, h)
            ctx.sig(f.__name__, h)


@monitor(90, 900)
def gauss_circuit(ctx):
    """random Gaussian circuits: covariance, means, weight, modes and class."""
    from mrmustard import settings
    from mrmustard.lab import Ket

    r = ctx.rng
    h = hbar(r)
    w = {"a": 1.2, "r": 0.9, "nbar": 1.5, "g": 1.8, "hbar": h, "N": 1}
    pure = bool(r.integers(2))
    ops = circ.program(r, circ.GAUSS, w, nops=int(r.integers(2, 9)), maxmodes=4, allow_mixed=not pure)
    p = circ.run_ps(ops, h)
    if p.w < 1e-6 or np.max(np.abs(p.V)) > 200:
        raise Skip("extreme")
    ctx.note = {"ops": [repr(o) for o in ops], "hbar": h}
    with settings(HBAR=h):
        got = circ.run_mm(ops)
        if not p.modes:
            return
        ctx.ok(isinstance(got, Ket) == circ.is_pure(ops), "gauss:ketness", f"{type(got)}")
        check_ps(ctx, got, p, "gauss", h)
        ctx.close(np.asarray(got.probability), p.w, "gauss:prob", tol=1e-7 * max(p.w, 1e-3), rel=1e-7)
    ctx.sig(*[o.name for o in ops], [list(o.modes) for o in ops])


def phase_align(got, want):
    k = np.argmax(np.abs(want))
    z = got.ravel()[k]
    if abs(z) < 1e-12:
        return got
    return got * (want.ravel()[k] / abs(want.ravel()[k])) / (z / abs(z))


def _fock(ctx, pure, maxmodes, N, K):
    from mrmustard.lab import Ket

    r = ctx.rng
    w = {"a": 0.4, "r": 0.25, "nbar": 0.25, "g": 1.12, "N": N, "number": str(r.choice(["fock", "bargmann"])), "ncut": None}
    while True:
        p = (0.3, 0.4, 0.15, 0.15)
        ops = circ.program(r, circ.FOCK, w, nops=int(r.integers(2, 6)), maxmodes=maxmodes, allow_mixed=not pure, p=p)
        if any(o.name == "TraceOut" for o in ops) and pure:
            continue
        exc = sum(o.par for o in ops if o.name == "Number") + sum(o.name in ("Amplifier", "S2gate", "Sgate") for o in ops)
        if exc > 6:
            continue
        break
    ref = circ.run_fk(ops)
    if not ref.modes:
        raise Skip("scalar")
    want = ref.mm(K)
    if np.max(np.abs(want)) < 1e-6:
        raise Skip("zero")
    ctx.note = {"ops": [repr(o) for o in ops], "number": w["number"], "N": N}
    from mrmustard import settings

    big = 12 if max(len(o.modes) for o in ops) > 1 or maxmodes > 1 else N
    with settings(AUTOSHAPE_MIN=big, AUTOSHAPE_MAX=big, DEFAULT_FOCK_SIZE=big):
        got = circ.run_mm(ops)
    ctx.ok(list(got.modes) == ref.modes, "fock:modes", f"{got.modes} != {ref.modes} {ctx.note}")
    ctx.ok(isinstance(got, Ket) == ref.pure, "fock:ketness", f"{type(got)} {ctx.note}")
    arr = np.asarray(got.fock_array((K,) * want.ndim))
    if any(not o.phase for o in ops) and ref.pure:
        arr = phase_align(arr, want)
    ctx.close(arr, want, "fock:" + ("ket" if ref.pure else "dm"), tol=2e-4 * max(1.0, float(np.max(np.abs(want)))), rel=0)
    ctx.sig(w["number"], *[o.name for o in ops], [list(o.modes) for o in ops])


@monitor(30, 400)
def fock_circuit(ctx):
    """pure circuits with Number states, superpositions and projections: amplitudes."""
    _fock(ctx, True, int(ctx.rng.integers(1, 4)), 14, 4)


@monitor(24, 320)
def fock_circuit_mixed(ctx):
    """mixed circuits with non-Gaussian states and channels."""
    _fock(ctx, False, int(ctx.rng.integers(1, 3)), 14, 4)


@monitor(100, 1000)
def gate_matrix(ctx):
    """Fock matrix of every gate on rectangular shapes and any mode labels."""
    r = ctx.rng
    N = 13
    w = {"a": 0.6, "r": 0.35, "N": N}
    cat = [(f, k) for f, k in circ.FOCK["gate"]] + [(circ.g_ggate, 1)]
    f, k = cat[int(r.integers(len(cat)))]
    modes = [int(m) for m in r.choice(circ.LABELS, size=k, replace=False)]
    op = f(r, modes, w)
    shape = tuple(int(x) for x in r.integers(1, 7, size=2 * k))
    ctx.note = {"op": repr(op), "shape": shape}
    c = op.make()
    if op.fk is None:
        # symplectic action: compare with the phase space simulator through from-vacuum moments is done in gauss_circuit
        S = np.asarray(c.symplectic)
        U = gen_ps(op, k)
        ctx.close(S, U, "gate:symplectic", tol=1e-8)
        return
    s = F.State([0], np.zeros((N,)), True)
    want = unitary_of(op, k, N)[tuple(slice(x) for x in shape)]
    got = np.asarray(c.fock_array(shape))
    if not op.phase:
        # fix the phase on the full matrix
        full = np.asarray(c.fock_array((4,) * (2 * k)))
        ref = unitary_of(op, k, N)[(slice(4),) * (2 * k)]
        i = np.argmax(np.abs(ref))
        ph = (ref.ravel()[i] / abs(ref.ravel()[i])) / (full.ravel()[i] / abs(full.ravel()[i]))
        got = got * ph
    ctx.close(got, want, "gate:matrix", tol=2e-6, rel=0)
    got2 = np.asarray(c.to_fock(shape).ansatz.array)
    ctx.close(got2, np.asarray(c.fock_array(shape)), "gate:to_fock", tol=1e-10)
    if hasattr(c, "symplectic") and op.ps is not None:
        ctx.close(np.asarray(c.symplectic), gen_ps(op, k), "gate:symplectic", tol=1e-8)
    ctx.sig(op.name, shape, modes)


def unitary_of(op, k, N):
    """the reference matrix of a gate: apply it to the identity (as a pure state with 2k modes)."""
    eye = np.eye(N)
    T = np.ones(())
    lab_in = [1000 + i for i in range(k)]
    T = eye
    for _ in range(k - 1):
        T = np.multiply.outer(T, eye)
    # axes: o1 i1 o2 i2 -> outs, ins
    T = T.transpose([2 * i for i in range(k)] + [2 * i + 1 for i in range(k)]).astype(complex)
    s = F.State(list(op.modes) + lab_in, T, True)
    return op.fk(s).T


def gen_ps(op, k):
    """symplectic matrix of an operation through the phase-space simulator."""
    M = 2 * k
    out = np.zeros((M, M))
    for j in range(M):
        p = G.PS(1.0)
        p.modes, p.mu, p.V = sorted(op.modes), np.eye(M)[j], np.eye(M)
        z = G.PS(1.0)
        z.modes, z.mu, z.V = sorted(op.modes), np.zeros(M), np.eye(M)
        out[:, j] = op.ps(p).mu - op.ps(z).mu
    return out


@monitor(30, 400)
def channel_map(ctx):
    """matrix elements of channels on any shape: sum_k K rho K^dagger for every |i><j|."""
    r = ctx.rng
    N = 14
    w = {"a": 0.4, "r": 0.25, "g": 1.3, "N": N}
    f = [circ.c_att, circ.c_amp][int(r.integers(2))]
    m = int(r.choice(circ.LABELS))
    op = f(r, [m], w)
    sh = tuple(int(x) for x in r.integers(1, 7, size=4))
    got = np.asarray(op.make().fock_array(sh))  # out_bra, in_bra, out_ket, in_ket
    Ks = F.atten_kraus(op.par, N) if op.name == "Attenuator" else F.amp_kraus(op.par, N)
    want = sum(np.einsum("ab,cd->abcd", K.conj(), K) for K in Ks)[tuple(slice(x) for x in sh)]
    ctx.note = {"op": repr(op), "shape": sh}
    ctx.close(got, want, "channel:" + op.name, tol=1e-8)
    ctx.sig(op.name, sh)


@monitor(24, 400)
def adjoint_dual(ctx):
    """adjoint = complex conjugate on the bra side; dual = Hermitian conjugate; both involutive."""
    r = ctx.rng
    N = 8
    w = {"a": 0.6, "r": 0.4, "nbar": 0.6, "g": 1.4, "N": N, "hbar": 1.0, "number": "fock"}
    kind = str(r.choice(["state", "gate", "channel", "prod"], p=[0.35, 0.3, 0.2, 0.15]))
    if kind == "prod":
        ops = [circ.pick(r, circ.GAUSS, "gate", [0, 3, 5], w, maxm=2) for _ in range(2)]
        c = ops[0].make().contract(ops[1].make())
        name = repr(ops)
    else:
        cat = circ.FOCK if (kind != "gate" and r.integers(2)) else circ.GAUSS
        op = circ.pick(r, cat, kind, [1, 2, 8], w, maxm=2)
        if op.name == "PhaseNoise":
            raise Skip("no ansatz")
        c, name = op.make(), repr(op)
    n = len(c.wires.quantum)
    cap = 3 if n > 4 else 4
    sh = tuple(int(x) for x in r.integers(1, cap + 1, size=n))
    ctx.note = {"op": name, "shape": sh}
    args = [sorted(a) for a in c.wires.args[:4]]  # ob, ib, ok, ik
    bound, k = [], 0
    for a in args:
        bound.append(list(range(k, k + len(a))))
        k += len(a)
    ob, ib, ok, ik = bound
    arr = np.asarray(c.fock_array(sh))
    batch = arr.ndim - n

    def tr(order):
        return arr.transpose(list(range(batch)) + [batch + i for i in order]).conj()

    # adjoint: bra <-> ket
    order = ok + ik + ob + ib
    a = c.adjoint
    ctx.ok([sorted(x) for x in a.wires.args[:4]] == [args[2], args[3], args[0], args[1]], "adjoint:wires", f"{a.wires} {ctx.note}")
    ctx.close(np.asarray(a.fock_array(tuple(sh[i] for i in order))), tr(order), "adjoint:array", tol=1e-9)
    order = ib + ob + ik + ok
    d = c.dual
    ctx.ok([sorted(x) for x in d.wires.args[:4]] == [args[1], args[0], args[3], args[2]], "dual:wires", f"{d.wires} {ctx.note}")
    ctx.close(np.asarray(d.fock_array(tuple(sh[i] for i in order))), tr(order), "dual:array", tol=1e-9)
    ctx.ok(d.dual == c, "dual:involution", f"{ctx.note}")
    ctx.ok(a.adjoint == c, "adjoint:involution", f"{ctx.note}")
    ctx.ok(a.dual == d.adjoint, "dual-adjoint:commute", f"{ctx.note}")
    ctx.sig(name.split("[")[0], sh, args)


@monitor(12, 240)
def operator_product(ctx):
    """products of operators on overlapping mode labels act like the sequence of gates; symplectic/XY of the product."""
    r = ctx.rng
    w = {"a": 0.8, "r": 0.5, "g": 1.4, "N": 1, "hbar": 1.0}
    labels = sorted(int(x) for x in r.choice(circ.LABELS, size=3, replace=False))
    n = int(r.integers(2, 5))
    mixed = bool(r.integers(2))
    ops = []
    for _ in range(n):
        kind = "channel" if mixed and r.integers(2) else "gate"
        ops.append(circ.pick(r, circ.GAUSS, kind, labels, w, maxm=3))
    ctx.note = {"ops": [repr(o) for o in ops]}
    prod = None
    for o in ops:
        c = o.make()
        prod = c if prod is None else prod >> c
    modes = sorted({m for o in ops for m in o.modes})
    ctx.ok(list(prod.modes) == modes, "product:modes", f"{prod.modes} {ctx.note}")
    from mrmustard.lab import Channel, Unitary

    want_cls = Channel if any(o.kind == "channel" for o in ops) else Unitary
    ctx.ok(type(prod) is want_cls or isinstance(prod, want_cls), "product:class", f"{type(prod)} {ctx.note}")
    # X, Y, d of the reference
    M = 2 * len(modes)
    X = np.zeros((M, M))
    p0 = G.PS(1.0)
    p0.modes, p0.mu, p0.V = modes, np.zeros(M), np.zeros((M, M))
    for o in ops:
        p0 = o.ps(p0)
    Y, d = p0.V, p0.mu
    for j in range(M):
        p = G.PS(1.0)
        p.modes, p.mu, p.V = modes, np.eye(M)[j], np.zeros((M, M))
        for o in ops:
            p = o.ps(p)
        X[:, j] = p.mu - d
    if want_cls is Unitary:
        ctx.close(np.asarray(prod.symplectic), X, "product:symplectic", tol=1e-7)
    else:
        if abs(np.linalg.det(X)) > 1e-3:
            gx, gy = prod.XY
            ctx.close(np.asarray(gx), X, "product:X", tol=1e-6)
            ctx.close(np.asarray(gy), Y, "product:Y", tol=1e-6)
    # acting on a state as a whole = acting one by one
    st = circ.st_gdm(r, modes, w) if r.integers(2) else circ.st_gket(r, modes, w)
    p = circ.run_ps([st] + ops, 1.0)
    check_ps(ctx, st.make() >> prod, p, "product:state", 1.0)
    ctx.sig(*[o.name for o in ops], modes)


@monitor(8, 160)
def prob_chain(ctx):
    """complete measurements: scalar results of closed circuits = Born probabilities/amplitudes."""
    from mrmustard import settings

    r = ctx.rng
    h = hbar(r)
    w = {"a": 0.9, "r": 0.6, "nbar": 1.0, "g": 1.5, "hbar": h, "N": 1}
    pure = bool(r.integers(2))
    ops = circ.program(r, circ.GAUSS, w, nops=int(r.integers(2, 6)), maxmodes=3, allow_mixed=not pure, ends=False)
    p = circ.run_ps(ops, h)
    ends = []
    rest = list(p.modes)
    while rest:
        op = circ.pick(r, {"end": [(circ.e_coh, 1), (circ.e_dsq, 1), (circ.e_tmsv, 2)]}, "end", rest, w)
        if op is None:
            break
        rest = [m for m in rest if m not in op.modes]
        ends.append(op)
        p = op.ps(p)
    ctx.note = {"ops": [repr(o) for o in ops + ends], "hbar": h}
    with settings(HBAR=h):
        got = np.asarray(circ.run_mm(ops + ends))
    ctx.ok(got.shape == (), "prob:scalar", f"{got.shape} {ctx.note}")
    val = abs(got) ** 2 if circ.is_pure(ops) else got.real
    ctx.close(np.asarray(val), np.asarray(p.w), "prob:value", tol=1e-9 + 1e-7 * p.w, rel=1e-6)
    ctx.sig(*[o.name for o in ops + ends])


@monitor(6, 100)
def hbar_independence(ctx):
    """the Bargmann triple of a circuit without quadrature-unit parameters does not depend on hbar."""
    from mrmustard import settings

    r = ctx.rng
    w = {"a": 0.9, "r": 0.6, "nbar": 1.0, "g": 1.5, "hbar": 1.0, "N": 1}
    cat = {k: [x for x in v if x[0] not in (circ.c_grn, circ.c_xy)] for k, v in circ.GAUSS.items()}
    ops = circ.program(r, cat, w, nops=int(r.integers(1, 6)), maxmodes=3)
    ctx.note = {"ops": [repr(o) for o in ops]}
    res = []
    for h in (1.0, float(r.choice([2.0, 0.3]))):
        with settings(HBAR=h):
            s = circ.run_mm(ops)
            res.append([np.asarray(x) for x in s.bargmann_triple()])
    for a, b, n in zip(res[0], res[1], "Abc"):
        ctx.close(b, a, "hbar:" + n, tol=1e-9)
    ctx.sig(*[o.name for o in ops])
