"""P09: unitarity, CPTP, inverses, round trips of parametrisations, random generators."""

from __future__ import annotations

import numpy as np

from mmv import circ, gen
from mmv.core import Skip, monitor
from mmv.ref import ps as G

RULE = (
    "one case = one generated transformation/state and the conservation laws or round trips evaluated on it with plain numpy formulas; "
    "events = compared numbers; distinct = (construction, modes, batch) signatures"
)
ASSUMPTIONS = [
    "verdicts is_CP/is_TP are compared only when the exact margin is far (>1e-4) from or exactly on the boundary",
    "X, Y are read back only when X is invertible (the Bargmann triple determines them through an inverse)",
    "the parameters of random Gaussian objects keep squeezing below 1.2",
]
MON = ["unitary_laws", "channel_laws", "verdicts", "xy_roundtrip", "symplectic_roundtrip", "state_roundtrip", "op_roundtrip",
       "inverses", "param_inverses", "random_generators", "structure", "conversions"]


def groups(tier):
    return [
        {"backend": "numpy", "shards": 5, "monitors": MON},
        {"backend": "jax", "shards": 2, "monitors": MON, "label": "jax", "scale": 0.2},
    ]


def omega(M):
    return np.block([[np.zeros((M, M)), np.eye(M)], [-np.eye(M), np.zeros((M, M))]])


def hbar(r):
    return float(r.choice([1.0, 1.0, 2.0, 0.5, 1.37]))


def labels(r, k):
    return tuple(sorted(int(x) for x in r.choice(circ.LABELS, size=k, replace=False)))


def trip(c):
    A, b, cc = c.ansatz.triple
    return np.asarray(A), np.asarray(b), np.asarray(cc)


def gauss2(t1, t2, i1, i2):
    """contract variables i1 of t1 with i2 of t2 (int dmu(z), z <-> conj z), plain numpy, unbatched."""
    A1, b1, c1 = t1
    A2, b2, c2 = t2
    n1, n2 = len(b1), len(b2)
    A = np.block([[A1, np.zeros((n1, n2))], [np.zeros((n2, n1)), A2]])
    b = np.concatenate([b1, b2])
    return trace1((A, b, c1 * c2), list(i1), [n1 + i for i in i2])


def trace1(t, i, j):
    A, b, c = t
    n = len(b)
    v = list(i) + list(j)
    k = [x for x in range(n) if x not in v]
    m = len(i)
    X = np.block([[np.zeros((m, m)), np.eye(m)], [np.eye(m), np.zeros((m, m))]])
    M = A[np.ix_(v, v)] - X
    D, R = A[np.ix_(v, k)], A[np.ix_(k, k)]
    Mi = np.linalg.inv(M)
    det = np.linalg.det(M) * (-1) ** m
    # branch: follow det continuously from the zero quadratic form
    ph = 0.0
    prev = 1.0 + 0j
    Q = A[np.ix_(v, v)]
    for s in np.linspace(0, 1, 41)[1:]:
        d = np.linalg.det(s * Q - X) * (-1) ** m
        ph += np.angle(d / prev)
        prev = d
    root = np.sqrt(abs(det)) * np.exp(0.5j * ph)
    cc = c / root * np.exp(-0.5 * b[v] @ Mi @ b[v])
    return R - D.T @ Mi @ D, b[k] - D.T @ Mi @ b[v], cc


def idx(c):
    """positions of (out_bra, in_bra, out_ket, in_ket), each by increasing mode."""
    res, k = [], 0
    for a in c.wires.args[:4]:
        res.append(list(range(k, k + len(a))))
        k += len(a)
    return res


def ident(ctx, t, m, key, tol=1e-7, phase=True):
    """triple is the m-mode identity operator."""
    Z = np.zeros((m, m))
    ctx.close(t[0], np.block([[Z, np.eye(m)], [np.eye(m), Z]]).astype(complex), key + ":A", tol=tol)
    ctx.close(t[1], np.zeros(2 * m, complex), key + ":b", tol=tol)
    ctx.close(t[2] if phase else abs(t[2]), np.asarray(1.0), key + ":c", tol=tol)


def check_unitary(ctx, U, key):
    m = len(U.modes)
    t = trip(U)
    if t[0].ndim != 2:
        raise Skip("batched")
    ob, ib, ok, ik = idx(U)
    # U^dagger U = 1 and U U^dagger = 1, from the triple alone
    tc = tuple(x.conj() for x in t)
    ident(ctx, gauss2(tc, t, ok, ok), m, key + ":UdU")
    ident(ctx, gauss2(tc, t, ik, ik), m, key + ":UUd")
    S = np.asarray(U.symplectic)
    ctx.close(S @ omega(m) @ S.T, omega(m), key + ":symplectic", tol=1e-7, rel=1e-9)


def check_cptp(ctx, C, key, tp=True):
    t = trip(C)
    ob, ib, ok, ik = idx(C)
    m = len(ib)
    bra, ket = ob + ib, ok + ik
    A, b, c = t
    sc = max(1.0, np.max(np.abs(A)))
    Gm = A[np.ix_(bra, ket)]
    ctx.close(Gm, Gm.conj().T, key + ":cp-hermitian", tol=1e-8 * sc)
    ctx.close(A[np.ix_(bra, bra)], A[np.ix_(ket, ket)].conj(), key + ":hp", tol=1e-8 * sc)
    ctx.close(b[bra], b[ket].conj(), key + ":hp-b", tol=1e-8 * max(1, np.max(np.abs(b))))
    ctx.ok(np.min(np.linalg.eigvalsh((Gm + Gm.conj().T) / 2)) > -1e-8 * sc, key + ":cp-positive", f"{np.linalg.eigvalsh(Gm)} {ctx.note}")
    ctx.ok(abs(c.imag) < 1e-8 * abs(c) and c.real > 0, key + ":cp-weight", f"{c} {ctx.note}")
    if tp:
        ident(ctx, trace1(t, ob, ok), m, key + ":tp")


W = {"a": 1.0, "r": 0.8, "nbar": 1.0, "g": 1.8, "hbar": 1.0, "N": 1}


@monitor(60, 600)
def unitary_laws(ctx):
    """U^dagger U = U U^dagger = 1, symplectic; dual and inverse cancel; products stay unitary."""
    from mrmustard import settings
    from mrmustard.lab import Unitary

    r = ctx.rng
    h = hbar(r)
    labs = labels(r, 3)
    kind = int(r.integers(4))
    with settings(HBAR=h):
        w = dict(W, hbar=h)
        if kind == 0:
            n = int(r.integers(2, 5))
            ops = [circ.pick(r, circ.GAUSS, "gate", list(labs), w, maxm=3) for _ in range(n)]
            U = ops[0].make()
            for o in ops[1:]:
                U = U >> o.make()
            name = [repr(o) for o in ops]
        elif kind == 1:
            seed = int(r.integers(1 << 30))
            U, name = Unitary.random(labs[: int(r.integers(1, 4))], 1.0, seed=seed), f"random {seed}"
        else:
            op = circ.pick(r, circ.GAUSS, "gate", list(labs), w, maxm=3)
            U, name = op.make(), repr(op)
        ctx.note = {"op": name, "hbar": h}
        ctx.ok(isinstance(U, Unitary), "unitary:class", f"{type(U)} {ctx.note}")
        check_unitary(ctx, U, "unitary")
        m = len(U.modes)
        for nm, V in (("dual", U.dual), ("inverse", U.inverse())):
            for nm2, P in ((nm + "-after", U >> V), (nm + "-before", V >> U)):
                ctx.ok(list(P.modes) == list(U.modes), f"unitary:{nm2}:modes", f"{P.modes} {ctx.note}")
                ident(ctx, trip(P), m, "unitary:" + nm2)
            if nm == "inverse":
                ctx.ok(isinstance(V, Unitary), f"unitary:{nm}:class", f"{type(V)} {ctx.note}")
    ctx.sig(str(name)[:40], list(U.modes))


@monitor(60, 600)
def channel_laws(ctx):
    """trace preservation and complete positivity from the triple, for channels, products and random channels."""
    from mrmustard import settings
    from mrmustard.lab import Channel

    r = ctx.rng
    h = hbar(r)
    labs = labels(r, 3)
    kind = int(r.integers(4))
    with settings(HBAR=h):
        w = dict(W, hbar=h)
        if kind == 0:
            n = int(r.integers(2, 4))
            ops = [circ.pick(r, circ.GAUSS, "channel" if i == 0 or r.integers(2) else "gate", list(labs), w, maxm=2) for i in range(n)]
            r.shuffle(ops)
            C = ops[0].make()
            for o in ops[1:]:
                C = C >> o.make()
            name = [repr(o) for o in ops]
        elif kind == 1:
            seed = int(r.integers(1 << 30))
            C, name = Channel.random(labs[: int(r.integers(1, 3))], float(r.uniform(0.1, 1)), seed=seed), f"random {seed}"
        else:
            op = circ.pick(r, circ.GAUSS, "channel", list(labs), w, maxm=2)
            C, name = op.make(), repr(op)
        ctx.note = {"op": name, "hbar": h}
        ctx.ok(isinstance(C, Channel), "channel:class", f"{type(C)} {ctx.note}")
        check_cptp(ctx, C, "channel")
        ctx.ok(bool(C.is_CP), "channel:is_CP", str(ctx.note))
        ctx.ok(bool(C.is_TP), "channel:is_TP", str(ctx.note))
        ctx.ok(bool(C.is_physical), "channel:is_physical", str(ctx.note))
        if r.integers(3) == 0 and len(C.modes) == 1:
            # Choi matrix of the Fock array
            N = 5
            T = np.asarray(C.fock_array(N))  # ob ib ok ik
            choi = T.transpose(0, 1, 2, 3).reshape(N * N, N * N)
            ctx.close(choi, choi.conj().T, "channel:choi-hermitian", tol=1e-9)
            ctx.ok(np.min(np.linalg.eigvalsh(choi)) > -1e-9, "channel:choi-psd", str(ctx.note))
    ctx.sig(str(name)[:40], list(C.modes))


@monitor(40, 400)
def verdicts(ctx):
    """is_CP / is_TP / is_physical refuse maps that are not."""
    from mrmustard.lab import Channel

    r = ctx.rng
    M = int(r.integers(1, 3))
    modes = labels(r, M)
    kind = str(r.choice(["Y", "Y", "scale", "damp", "mix"]))
    Om = omega(M)
    ctx.note = {"kind": kind, "modes": modes}
    if kind in ("Y", "mix"):
        X = r.normal(size=(2 * M, 2 * M)) * 0.7
        B = r.normal(size=(2 * M, 2 * M)) * float(r.uniform(0.1, 1.2))
        Y = B @ B.T + 0.3 * np.eye(2 * M)
        lam = np.min(np.linalg.eigvalsh(Y + 0.5j * (Om - X @ Om @ X.T)))
        if abs(lam) < 1e-3:
            raise Skip("boundary")
        C = Channel.from_XY(modes, modes, X, Y)
        ctx.ok(bool(C.is_TP), "verdict:XY-is-TP", str(ctx.note))
        ctx.ok(bool(C.is_CP) == bool(lam > 0), "verdict:XY-is-CP", f"is_CP={C.is_CP} min eig {lam} {ctx.note}")
        ctx.ok(bool(C.is_physical) == bool(lam > 0), "verdict:XY-is-physical", f"{lam} {ctx.note}")
    elif kind == "scale":
        op = circ.pick(r, circ.GAUSS, "channel", list(modes), W, maxm=M)
        C = op.make()
        A, b, c = C.ansatz.triple
        f = float(r.choice([0.5, 2.0, 0.9, -1.0]))
        C2 = Channel.from_bargmann(C.modes, C.modes, (A, b, f * c))
        ctx.note["f"] = f
        ctx.note["op"] = repr(op)
        ctx.ok(not bool(C2.is_TP), "verdict:scaled-is-TP", str(ctx.note))
        ctx.ok(bool(C2.is_CP) == (f > 0), "verdict:scaled-is-CP", str(ctx.note))
        ctx.ok(not bool(C2.is_physical), "verdict:scaled-is-physical", str(ctx.note))
    else:
        # K rho K^dagger with K = exp(-d n): completely positive, not trace preserving
        k = np.exp(-float(r.uniform(0.05, 1.0)))
        Z, I = np.zeros((M, M)), np.eye(M)
        X1 = np.block([[Z, k * I], [k * I, Z]])
        A = np.block([[X1, 0 * X1], [0 * X1, X1]]).astype(complex)
        C = Channel.from_bargmann(modes, modes, (A, np.zeros(4 * M, complex), 1.0 + 0j))
        ctx.ok(bool(C.is_CP), "verdict:damp-is-CP", str(ctx.note))
        ctx.ok(not bool(C.is_TP), "verdict:damp-is-TP", str(ctx.note))
        ctx.ok(not bool(C.is_physical), "verdict:damp-is-physical", str(ctx.note))
    ctx.sig(kind, modes)


def rand_xy(r, M, batch, h):
    X = r.normal(size=(*batch, 2 * M, 2 * M)) * 0.7
    Om = omega(M)
    K = 1j * (Om - X @ Om @ np.swapaxes(X, -1, -2))
    lam = np.max(np.abs(np.linalg.eigvalsh(K)), axis=-1)[..., None, None]
    B = r.normal(size=(*batch, 2 * M, 2 * M)) * 0.4
    Y = h * (0.5 * lam * np.eye(2 * M) + B @ np.swapaxes(B, -1, -2))
    return X, Y


@monitor(48, 500)
def xy_roundtrip(ctx):
    """from_XY(X, Y, d): X and Y read back; the channel maps moments as X, Y, d announce."""
    from mrmustard import settings
    from mrmustard.lab import Channel

    r = ctx.rng
    h = hbar(r)
    M = int(r.integers(1, 3))
    modes = labels(r, M)
    batch = () if r.integers(3) else tuple(int(x) for x in r.choice([1, 2, 3], size=int(r.integers(1, 3))))
    X, Y = rand_xy(r, M, batch, h)
    d = None if r.integers(2) else r.normal(size=(*batch, 2 * M))
    if d is not None and r.integers(5) == 0:
        d = d * 0
    ctx.note = {"modes": modes, "batch": batch, "hbar": h, "d": d is not None}
    with settings(HBAR=h):
        C = Channel.from_XY(modes, modes, X, Y) if d is None else Channel.from_XY(modes, modes, X, Y, d)
        ctx.ok(list(C.modes) == list(modes), "xy:modes", f"{C.modes} {ctx.note}")
        gx, gy = C.XY
        if np.min(np.abs(np.linalg.det(X))) > 1e-3:
            ctx.close(np.asarray(gx), X, "xy:X", tol=1e-6)
            ctx.close(np.asarray(gy), Y, "xy:Y", tol=1e-6)
        A, b, c = trip(C)
        ctx.ok(c.shape == batch, "xy:batch", f"{c.shape} {ctx.note}")
        dd = np.zeros((*batch, 2 * M)) if d is None else d
        st = circ.st_gdm(r, list(modes), dict(W, hbar=h))
        al = r.normal(size=M) + 1j * r.normal(size=M)
        from mrmustard.lab import Dgate

        s = st.make()
        for m, x in zip(modes, al):
            s = s >> Dgate(m, alpha=complex(x))
        cov0, mu0, _ = (np.asarray(x) for x in s.phase_space(0))
        out = s >> C
        cov, mu, co = (np.asarray(x) for x in out.phase_space(0))
        ctx.close(cov, X @ cov0 @ np.swapaxes(X, -1, -2) + Y, "xy:cov", tol=1e-6)
        ctx.close(mu, np.einsum("...ij,j->...i", X, mu0) + dd, "xy:mean", tol=1e-6)
        ctx.close(co, np.ones(batch), "xy:weight", tol=1e-7)
    ctx.sig(M, modes, batch, h, d is None)


@monitor(40, 400)
def symplectic_roundtrip(ctx):
    """from_symplectic / Ggate / XY of unitaries."""
    from mrmustard.lab import Ggate, Unitary
    from mrmustard.physics import bargmann_utils as bu

    r = ctx.rng
    M = int(r.integers(1, 4))
    modes = labels(r, M)
    batch = () if r.integers(2) else tuple(int(x) for x in r.choice([1, 2, 3], size=int(r.integers(1, 3))))
    S = np.zeros((*batch, 2 * M, 2 * M))
    for i in np.ndindex(*batch):
        S[i] = gen.symplectic(r, M, float(r.choice([0.0, 0.5, 1.2])))
    ctx.note = {"modes": modes, "batch": batch}
    for nm, U in (("from_symplectic", Unitary.from_symplectic(modes, S)), ("Ggate", Ggate(modes, S))):
        ctx.ok(list(U.modes) == list(modes), nm + ":modes", f"{U.modes}")
        ctx.close(np.asarray(U.symplectic), S, nm + ":symplectic", tol=1e-8)
        A, b, c = trip(U)
        ctx.ok(c.shape == batch, nm + ":batch", f"{c.shape} {ctx.note}")
        ob, ib, ok, ik = idx(U)
        for i in np.ndindex(*batch):
            t = (A[i], b[i], c[i])
            ident(ctx, gauss2(tuple(np.conj(x) for x in t), t, ok, ok), M, nm + ":UdU")
    A = np.asarray(bu.symplectic2Au(S.astype(complex)))
    ctx.close(np.asarray(bu.au2Symplectic(A)), S, "au2Symplectic", tol=1e-8)
    ctx.sig(M, modes, batch)


@monitor(48, 500)
def state_roundtrip(ctx):
    """from_bargmann / from_fock / from_phase_space / from_quadrature / from_ansatz give back the data and the state."""
    from mrmustard import settings
    from mrmustard.lab import DM, Ket
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    r = ctx.rng
    h = hbar(r)
    M = int(r.integers(1, 3))
    modes = labels(r, M)
    mixed = bool(r.integers(2))
    cls = DM if mixed else Ket
    n = M * (2 if mixed else 1)
    batch = gen.batch_shape(r, 2)
    ctx.note = {"modes": modes, "batch": batch, "hbar": h, "mixed": mixed}
    A, b, c = gen.sym(r, n, 0.6, batch), gen.vec(r, n, 0.7, batch), gen.cplx(r, *batch)
    s = cls.from_bargmann(modes, (A, b, c))
    for got, want, k in zip(s.ansatz.triple, (A, b, c), "Abc"):
        ctx.close(np.asarray(got), want, "state:bargmann:" + k, tol=1e-12)
    for got, want, k in zip(s.bargmann_triple(), (A, b, c), "Abc"):
        ctx.close(np.asarray(got), want, "state:bargmann_triple:" + k, tol=1e-12)
    s2 = cls.from_ansatz(modes, PolyExpAnsatz(A, b, c))
    ctx.ok(s2 == s, "state:from_ansatz", str(ctx.note))
    sh = tuple(int(x) for x in r.integers(1, 5, size=n))
    arr = gen.cplx(r, *batch, *sh)
    f = cls.from_fock(modes, arr, batch_dims=len(batch))
    ctx.ok(list(f.modes) == list(modes) and type(f) is cls, "state:fock:modes", str(ctx.note))
    ctx.close(np.asarray(f.ansatz.array), arr, "state:fock:array", tol=1e-12)
    ctx.close(np.asarray(f.fock_array(sh)), arr, "state:fock:fock_array", tol=1e-12)
    ctx.ok(cls.from_ansatz(modes, ArrayAnsatz(arr, len(batch))) == f, "state:fock:from_ansatz", str(ctx.note))
    with settings(HBAR=h):
        st = (circ.st_gdm if mixed else circ.st_gket)(r, list(modes), dict(W, hbar=h))
        g = st.make()
        from mrmustard.lab import Dgate

        for m in modes:
            g = g >> Dgate(m, alpha=complex(r.normal(), r.normal()))
        cov, mu, co = (np.asarray(x) for x in g.phase_space(0))
        w = float(r.choice([1.0, 0.5, 2.0]))
        back = cls.from_phase_space(modes, (np.real(cov), np.real(mu), w))
        ctx.ok(type(back) is cls and list(back.modes) == list(modes), "state:phase_space:class", f"{type(back)}")
        cov2, mu2, co2 = (np.asarray(x) for x in back.phase_space(0))
        ctx.close(cov2, cov, "state:phase_space:cov", tol=1e-7)
        ctx.close(mu2, mu, "state:phase_space:mean", tol=1e-7)
        ctx.close(co2, np.asarray(w if mixed else w**2), "state:phase_space:weight", tol=1e-7)
        ctx.close(np.asarray(back.bargmann_triple()[0]), np.asarray(g.bargmann_triple()[0]), "state:phase_space:A", tol=1e-7)
        ctx.close(np.asarray(back.bargmann_triple()[1]), np.asarray(g.bargmann_triple()[1]), "state:phase_space:b", tol=1e-7)
        phi = circ.angle(r)
        q = g.quadrature_triple(phi)
        g2 = cls.from_quadrature(modes, q, phi)
        for got, want, k in zip(g2.bargmann_triple(), g.bargmann_triple(), "Abc"):
            ctx.close(np.asarray(got), np.asarray(want), "state:quadrature:" + k, tol=1e-6)
        for got, want, k in zip(g2.quadrature_triple(phi), q, "Abc"):
            ctx.close(np.asarray(got), np.asarray(want), "state:quadrature-triple:" + k, tol=1e-6)
    ctx.sig(modes, batch, mixed, h)


@monitor(48, 500)
def op_roundtrip(ctx):
    """from_bargmann / from_fock / from_ansatz / from_quadrature of operations with different input and output modes."""
    from mrmustard import settings
    from mrmustard.lab import Channel, Map, Operation, Unitary
    from mrmustard.physics.ansatz import ArrayAnsatz, PolyExpAnsatz

    r = ctx.rng
    cls = [Operation, Unitary, Map, Channel][int(r.integers(4))]
    two = cls in (Map, Channel)
    no, ni = int(r.integers(1, 3)), int(r.integers(1, 3))
    mo, mi = labels(r, no), labels(r, ni)
    n = (no + ni) * (2 if two else 1)
    batch = gen.batch_shape(r, 2)
    ctx.note = {"cls": cls.__name__, "out": mo, "in": mi, "batch": batch}
    A, b, c = gen.sym(r, n, 0.6, batch), gen.vec(r, n, 0.7, batch), gen.cplx(r, *batch)

    def wires(x, key):
        got = [sorted(a) for a in x.wires.args[:4]]
        want = [list(mo) if two else [], list(mi) if two else [], list(mo), list(mi)]
        ctx.ok(got == want, key + ":wires", f"{got} != {want} {ctx.note}")
        ctx.ok(type(x) is cls, key + ":class", f"{type(x)} {ctx.note}")

    t = cls.from_bargmann(mo, mi, (A, b, c))
    wires(t, "op:bargmann")
    for got, want, k in zip(t.bargmann_triple(), (A, b, c), "Abc"):
        ctx.close(np.asarray(got), want, "op:bargmann:" + k, tol=1e-12)
    wires(cls.from_ansatz(mo, mi, PolyExpAnsatz(A, b, c)), "op:ansatz")
    sh = tuple(int(x) for x in r.integers(1, 4, size=n))
    arr = gen.cplx(r, *batch, *sh)
    f = cls.from_fock(mo, mi, arr, len(batch))
    wires(f, "op:fock")
    ctx.close(np.asarray(f.ansatz.array), arr, "op:fock:array", tol=1e-12)
    f2 = cls.from_ansatz(mo, mi, ArrayAnsatz(arr, len(batch)))
    ctx.ok(f2 == f, "op:fock:ansatz", str(ctx.note))
    # quadrature round trip of a Gaussian operation
    h = hbar(r)
    with settings(HBAR=h):
        # generic kernels (the kernels of diagonal gates are delta functions)
        op = (circ.c_xy if two else circ.g_ggate)(r, list(labels(r, int(r.integers(1, 3)))), dict(W, hbar=h))
        g = op.make()
        phi = circ.angle(r)
        ctx.note.update(op=repr(op), phi=phi, hbar=h)
        try:
            q = g.quadrature_triple(phi)
        except Exception:  # delta-like kernels cannot be represented
            raise Skip("singular kernel") from None
        if not all(np.all(np.isfinite(np.asarray(x))) for x in q) or np.max(np.abs(np.asarray(q[0]))) > 1e3:
            raise Skip("near singular kernel")
        base = Channel if two else Unitary
        g2 = base.from_quadrature(op.modes, op.modes, q, phi)
        for got, want, k in zip(g2.bargmann_triple(), g.bargmann_triple(), "Abc"):
            ctx.close(np.asarray(got), np.asarray(want), "op:quadrature:" + k, tol=1e-5)
    ctx.sig(cls.__name__, no, ni, batch)


@monitor(48, 500)
def inverses(ctx):
    """T >> T.inverse() is the identity for channels and operations, also between different modes and in batches."""
    from mrmustard import settings
    from mrmustard.lab import Channel, Map, Operation

    r = ctx.rng
    kind = str(r.choice(["channel", "channel", "operation", "map"]))
    M = int(r.integers(1, 3))
    h = hbar(r)
    batch = () if r.integers(2) else (int(r.integers(1, 4)),)
    mi = labels(r, M)
    mo = mi if kind == "channel" else labels(r, M)
    ctx.note = {"kind": kind, "in": mi, "out": mo, "hbar": h, "batch": batch}
    with settings(HBAR=h):
        if kind == "channel":
            X, Y = rand_xy(r, M, batch, h)
            if np.min(np.linalg.svd(X)[1]) < 0.15:
                raise Skip("X nearly singular")
            d = r.normal(size=(*batch, 2 * M))
            T = Channel.from_XY(mo, mi, X, Y, d) if r.integers(2) else Channel.from_XY(mo, mi, X, Y)
        else:
            k = 2 * M * (2 if kind == "map" else 1)
            # A close to the identity kernel, so that the inverse exists
            n = k // 2
            E = gen.sym(r, k, 0.25, batch, "dense")
            m1 = M
            X1 = np.block([[np.zeros((m1, m1)), np.eye(m1)], [np.eye(m1), np.zeros((m1, m1))]])
            A0 = X1 if kind == "operation" else np.block([[X1, 0 * X1], [0 * X1, X1]])
            A, b, c = A0 + E, gen.vec(r, k, 0.5, batch, "dense"), 1 + gen.cplx(r, *batch) * 0.3
            T = (Operation if kind == "operation" else Map).from_bargmann(mo, mi, (A, b, c))
        V = T.inverse()
        got = [sorted(a) for a in V.wires.args[:4]]
        two = kind != "operation"
        want = [list(mi) if two else [], list(mo) if two else [], list(mi), list(mo)]
        ctx.ok(got == want, "inverse:wires", f"{got} != {want} {ctx.note}")
        t, v = trip(T), trip(V)
        for i in np.ndindex(*batch):
            ti, vi = tuple(x[i] for x in t), tuple(x[i] for x in v)
            ob, ib, ok, ik = idx(T)
            p = gauss2(ti, vi, ob + ok, ib + ik)  # variables: T.ib, T.ik, V.ob, V.ok
            if two:
                o = [2 * M + j for j in range(M)] + list(range(M)) + [3 * M + j for j in range(M)] + list(range(M, 2 * M))
                p = (p[0][np.ix_(o, o)], p[1][o], p[2])
                X1 = np.kron(np.array([[0, 1], [1, 0]]), np.eye(M))
                wantA = np.kron(np.eye(2), X1)
                ctx.close(p[0], wantA.astype(complex), "inverse:A", tol=1e-6)
                ctx.close(p[1], np.zeros(4 * M, complex), "inverse:b", tol=1e-6)
            else:
                o = [M + j for j in range(M)] + list(range(M))
                p = (p[0][np.ix_(o, o)], p[1][o], p[2])
                ctx.close(p[0], np.kron(np.array([[0, 1], [1, 0]]), np.eye(M)).astype(complex), "inverse:A", tol=1e-6)
                ctx.close(p[1], np.zeros(2 * M, complex), "inverse:b", tol=1e-6)
            # the formal integrals need not converge: the sign of the square root is not fixed by them
            ctx.close(p[2] ** 2, np.asarray(1.0), "inverse:c^2", tol=1e-6)
        P = T >> V
        pa = trip(P)
        ctx.ok(pa[2].shape == batch + batch, "inverse:lib-batch", f"{pa[2].shape} {ctx.note}")
        for i in np.ndindex(*batch):
            want = wantA if two else np.kron(np.array([[0, 1], [1, 0]]), np.eye(M))
            ctx.close(pa[0][i + i], want.astype(complex), "inverse:lib:A", tol=1e-6)
            ctx.close(pa[2][i + i] ** 2, np.asarray(1.0), "inverse:lib:c", tol=1e-6)
    ctx.sig(kind, M, batch, mi == mo)


@monitor(40, 300)
def param_inverses(ctx):
    """the inverse of a parametrised gate is the gate at the inverse parameters; inverse twice is the gate."""
    from mrmustard.lab import BSgate, CXgate, CZgate, Dgate, Ggate, Identity, Interferometer, Pgate, RealInterferometer, Rgate, S2gate, Sgate

    r = ctx.rng
    k = int(r.integers(12))
    m = labels(r, 2)
    a, p, s = circ.amp(r, 1.0), circ.angle(r), circ.u(r, -0.9, 0.9)
    th = circ.angle(r)
    S, U = gen.symplectic(r, 2, 0.8), gen.unitary(r, 2)
    O = np.linalg.qr(r.normal(size=(2, 2)))[0]
    pairs = [
        lambda: (Dgate(m[0], alpha=a), Dgate(m[0], alpha=-a)),
        lambda: (Sgate(m[0], r=s, phi=p), Sgate(m[0], r=-s, phi=p)),
        lambda: (Rgate(m[0], theta=th), Rgate(m[0], theta=-th)),
        lambda: (Pgate(m[0], s), Pgate(m[0], -s)),
        lambda: (BSgate(m, theta=th, phi=p), BSgate(m, theta=-th, phi=p)),
        lambda: (S2gate(m, r=s, phi=p), S2gate(m, r=-s, phi=p)),
        lambda: (CXgate(m, s), CXgate(m, -s)),
        lambda: (CZgate(m, s), CZgate(m, -s)),
        lambda: (Ggate(m, S), Ggate(m, np.linalg.inv(S))),
        lambda: (Interferometer(m, U), Interferometer(m, U.conj().T)),
        lambda: (RealInterferometer(m, O), RealInterferometer(m, O.T)),
        lambda: (Identity(m), Identity(m)),
    ]
    g, inv = pairs[k]()
    got = g.inverse()
    ctx.note = {"gate": type(g).__name__, "modes": m, "par": (a, p, s, th)}
    tg, tw = trip(got), trip(inv)
    nm = type(g).__name__
    ctx.close(tg[0], tw[0], "param-inverse:A:" + nm, tol=1e-8)
    ctx.close(tg[1], tw[1], "param-inverse:b:" + nm, tol=1e-8)
    ctx.close(np.abs(tg[2]), np.abs(tw[2]), "param-inverse:c:" + nm, tol=1e-8)
    if nm in ("Dgate", "Sgate", "Rgate", "BSgate", "S2gate"):
        ctx.close(tg[2], tw[2], "param-inverse:phase:" + nm, tol=1e-8)
    back = got.inverse()
    for x, y, kk in zip(trip(back), trip(g), "Abc"):
        ctx.close(x, y, "param-inverse:twice:" + kk + nm, tol=1e-8)
    ctx.sig(k, m)


@monitor(60, 500)
def random_generators(ctx):
    """random objects are of their class, within bounds and reproducible."""
    from mrmustard import math, settings
    from mrmustard.lab import DM, Channel, Ket, Unitary

    r = ctx.rng
    seed = int(r.choice([0, 1, int(r.integers(1 << 30))]))
    kind = str(r.choice(["symplectic", "orthogonal", "unitary", "U", "Ch", "Ket", "DM"]))
    M = int(r.integers(1, 5 if kind in ("symplectic", "orthogonal", "unitary") else 3))
    mr = float(r.choice([0.0, 0.3, 1.0, 1.2]))
    modes = labels(r, M)
    ctx.note = {"kind": kind, "M": M, "max_r": mr, "seed": seed, "modes": modes}
    if kind == "symplectic":
        draw = lambda **k: np.asarray(math.random_symplectic(M, mr, **k))
    elif kind == "orthogonal":
        draw = lambda **k: np.asarray(math.random_orthogonal(M))
    elif kind == "unitary":
        draw = lambda **k: np.asarray(math.random_unitary(M))
    elif kind == "U":
        draw = lambda **k: Unitary.random(modes, max_r=mr, **k)
    elif kind == "Ch":
        draw = lambda **k: Channel.random(modes, max_r=mr, **k)
    elif kind == "Ket":
        draw = lambda **k: Ket.random(modes, max_r=mr, **k)
    else:
        extra = [None, 1, 2][int(r.integers(3))]
        ctx.note["m"] = extra
        draw = lambda **k: DM.random(modes, m=extra, max_r=mr, **k)

    def same(x, y, key):
        if isinstance(x, np.ndarray):
            ctx.close(x, y, key, tol=1e-300, rel=0)
        else:
            ctx.ok(list(x.modes) == list(y.modes), key, "modes")
            for p, q in zip(trip(x), trip(y)):
                ctx.close(p, q, key, tol=1e-14, rel=1e-14)

    def check(x):
        if kind == "symplectic":
            ctx.close(x @ omega(M) @ x.T, omega(M), "random:symplectic", tol=1e-9)
            sv = np.linalg.svd(x)[1]
            ctx.ok(sv[0] <= np.exp(mr) * (1 + 1e-9), "random:max_r", f"{sv} {ctx.note}")
        elif kind in ("orthogonal", "unitary"):
            ctx.close(x @ x.conj().T, np.eye(M), "random:" + kind, tol=1e-9)
            ctx.ok(kind == "unitary" or not np.iscomplexobj(x), "random:orthogonal-real", str(x.dtype))
        elif kind == "U":
            ctx.ok(type(x) is Unitary and list(x.modes) == list(modes), "random:U:class", f"{type(x)}")
            check_unitary(ctx, x, "random:U")
            ctx.ok(np.linalg.svd(np.asarray(x.symplectic))[1][0] <= np.exp(mr) * (1 + 1e-7), "random:U:max_r", str(ctx.note))
        elif kind == "Ch":
            ctx.ok(type(x) is Channel and list(x.modes) == list(modes), "random:Ch:class", f"{type(x)}")
            check_cptp(ctx, x, "random:Ch")
        else:
            ctx.ok(type(x) is (Ket if kind == "Ket" else DM) and list(x.modes) == list(modes), "random:state:class", f"{type(x)}")
            ctx.close(np.asarray(x.probability), np.asarray(1.0), "random:state:norm", tol=1e-8)
            cov, mu, co = (np.asarray(v) for v in x.phase_space(0))
            ctx.close(mu, np.zeros_like(mu), "random:state:mean", tol=1e-9)
            ev = np.linalg.eigvalsh(np.real(cov) + 0.5j * omega(M))
            ctx.ok(ev.min() > -1e-8, "random:state:uncertainty", f"{ev} {ctx.note}")
            ctx.ok(np.linalg.eigvalsh(np.real(cov)).max() <= 0.5 * np.exp(2 * mr) * (1 + 1e-7), "random:state:max_r", str(ctx.note))
            pur = 1 / np.sqrt(np.linalg.det(2 * np.real(cov)))
            ctx.ok(pur < 1 + 1e-7 and (kind == "DM" or abs(pur - 1) < 1e-7), "random:state:purity", f"{pur} {ctx.note}")

    if kind not in ("orthogonal", "unitary"):
        x, y, z = draw(seed=seed), draw(seed=seed), draw(seed=seed + 1)
        check(x)
        same(x, y, "random:same-seed:" + kind)
        if mr > 0 and kind != "Ch":
            d = np.max(np.abs((x if kind == "symplectic" else trip(x)[0]) - (z if kind == "symplectic" else trip(z)[0])))
            ctx.ok(d > 1e-9, "random:seed-ignored:" + kind, str(ctx.note))
    old = settings.SEED
    try:
        settings.SEED = seed
        a1, b1 = draw(), draw()
        settings.SEED = seed
        a2, b2 = draw(), draw()
    finally:
        settings.SEED = old
    check(a1)
    same(a1, a2, "random:global-seed:" + kind)
    same(b1, b2, "random:global-seed:" + kind)
    ctx.sig(kind, M, mr)


@monitor(12, 40)
def structure(ctx):
    """constant matrices."""
    from mrmustard import math

    M = int(ctx.rng.integers(1, 6))
    I, Z = np.eye(M), np.zeros((M, M))
    ctx.note = {"M": M}
    ctx.close(np.asarray(math.J(M)), omega(M), "J", tol=1e-300, rel=0)
    ctx.close(np.asarray(math.Xmat(M)), np.block([[Z, I], [I, Z]]), "Xmat", tol=1e-300, rel=0)
    ctx.close(np.asarray(math.Zmat(M)), np.block([[I, Z], [Z, -I]]), "Zmat", tol=1e-300, rel=0)
    ctx.close(np.asarray(math.rotmat(M)), np.block([[I, 1j * I], [I, -1j * I]]) / np.sqrt(2), "rotmat", tol=1e-15)
    U = gen.unitary(ctx.rng, M)
    O = np.asarray(math.unitary_to_orthogonal(U))
    ctx.close(O, np.block([[U.real, -U.imag], [U.imag, U.real]]), "unitary_to_orthogonal", tol=1e-14)
    from mrmustard.physics import symplectics as sp

    s, a, b = ctx.rng.uniform(-2, 2, size=3)
    ctx.close(np.asarray(sp.cxgate_symplectic(s)), G.S_cx(s), "cx", tol=1e-12)
    ctx.close(np.asarray(sp.czgate_symplectic(s)), G.S_cz(s), "cz", tol=1e-12)
    ctx.close(np.asarray(sp.interferometer_symplectic(U)), G.S_u(U), "interferometer", tol=1e-12)
    R = np.linalg.qr(ctx.rng.normal(size=(M, M)))[0]
    ctx.close(np.asarray(sp.realinterferometer_symplectic(R)), G.S_u(R), "realinterferometer", tol=1e-12)
    for internal in (False, True):
        ctx.close(np.asarray(sp.mzgate_symplectic(a, b, internal)), G.S_u(G.U_mz(a, b, internal)), "mz", tol=1e-12)
    for n in range(1, 3):
        want = np.block([[np.eye(n), np.zeros((n, n))], [s * np.eye(n), np.eye(n)]])
        ctx.close(np.asarray(sp.pgate_symplectic(n, s)), want, "p", tol=1e-12)
    ctx.sig(M)


@monitor(40, 300)
def conversions(ctx):
    """covariance/means <-> Bargmann conversions of physics.bargmann_utils."""
    from mrmustard import settings
    from mrmustard.physics import bargmann_utils as bu

    r = ctx.rng
    h = hbar(r)
    M = int(r.integers(1, 4))
    S = gen.symplectic(r, M, 0.8)
    nb = np.tile(r.uniform(0, 1.5, size=M) * int(r.integers(2)), 2)
    V = S @ np.diag(h * (nb + 0.5)) @ S.T
    mu = r.normal(size=2 * M) * np.sqrt(h) * int(r.integers(2))
    ctx.note = {"M": M, "hbar": h, "mixed": bool(nb.any())}
    with settings(HBAR=h):
        A, b, c = (np.asarray(x) for x in bu.wigner_to_bargmann_rho(V, mu))
        # from the definition: rho is the Gaussian with these moments <=> Husimi function
        R = np.kron(np.array([[1, 1j], [1, -1j]]) / np.sqrt(2), np.eye(M))  # (x,p) -> (a, adag)
        sig = R @ V @ R.conj().T / h
        Q = sig + 0.5 * np.eye(2 * M)
        al = R @ mu / np.sqrt(h)
        X = np.kron(np.array([[0, 1], [1, 0]]), np.eye(M))
        # <alpha|rho|alpha> e^{|alpha|^2} = c exp(1/2 v A v + b v), v = (alpha, alpha*) in the (bra, ket) order of the library
        z = r.normal(size=M) + 1j * r.normal(size=M)
        v = np.concatenate([z, z.conj()])
        dz = v - al
        husimi = np.exp(-0.5 * dz.conj() @ np.linalg.solve(Q, dz)) / np.sqrt(np.linalg.det(Q))
        want = husimi * np.exp(np.sum(np.abs(z) ** 2))
        got = c * np.exp(0.5 * v @ A @ v + b @ v)
        ctx.close(got, np.asarray(want), "rho:value", tol=1e-9 * abs(want), rel=1e-7)
        if not nb.any():
            A1, b1, c1 = (np.asarray(x) for x in bu.wigner_to_bargmann_psi(V, mu))
            ctx.close(A1, A[M:, M:], "psi:A", tol=1e-9)
            k = abs(c1 * np.exp(0.5 * z.conj() @ A1 @ z.conj() + b1 @ z.conj())) ** 2
            ctx.close(k, np.asarray(want.real), "psi:value", tol=1e-9 * abs(want), rel=1e-6)
    ctx.sig(M, h, bool(nb.any()))
