"""P08: wire bookkeeping matches the labelled-multiset model."""

from __future__ import annotations

import itertools

import numpy as np

from mmv.core import Skip, monitor

RULE = (
    "one case = one random history of wire operations (or one contraction of components with random wires) executed on the library's Wires and, "
    "in lockstep, on an independent model (sets of (group, mode) ports in standard order); events = compared observables; distinct = operation/label patterns"
)
ASSUMPTIONS = ["mode labels below 10000 (the standard order encodes the group in the thousands)"]
MON = ["histories", "matmul", "labels", "components", "subsets", "hash_eq"]
GROUPS = ["bo", "bi", "ko", "ki", "co", "ci"]  # the standard order of the groups


def groups(tier):
    return [
        {"backend": "numpy", "shards": 5, "monitors": MON},
        {"backend": "jax", "shards": 1, "monitors": MON, "label": "jax", "scale": 0.1},
    ]


class M:
    """model: list of ports in standard order."""

    def __init__(self, ports):
        ports = list(ports)
        assert len(set(ports)) == len(ports)
        self.p = sorted(ports, key=lambda q: (GROUPS.index(q[0]), q[1]))

    def args(self):
        return tuple({m for g, m in self.p if g == G} for G in GROUPS)

    def modes(self):
        return {m for _, m in self.p}

    def filt(self, f):
        return M([q for q in self.p if f(q)])

    def swap(self, t):
        return M([(q[0].translate(str.maketrans(t)) if True else q[0], q[1]) for q in self.p])


ADJ = {"b": "k", "k": "b"}
DUAL = {"o": "i", "i": "o"}


def adj(m):
    return M([((ADJ.get(g[0], g[0]) + g[1]), x) for g, x in m.p])


def dual(m):
    return M([(g[0] + DUAL[g[1]], x) for g, x in m.p])


def pool(r):
    k = int(r.integers(4))
    if k == 0:
        return list(range(4))
    if k == 1:
        return [int(x) for x in r.choice(40, size=5, replace=False)]
    if k == 2:
        return [0, 1, 7, 8, 9, 10, 11, 16, 64]
    return [int(x) for x in r.choice(9999, size=4, replace=False)]


def rand_model(r, labels, classical=True, p=None):
    p = p if p is not None else float(r.choice([0.2, 0.5, 0.8]))
    gs = GROUPS if classical and r.integers(3) == 0 else GROUPS[:4]
    return M([(g, m) for g in gs for m in labels if r.random() < p])


def lib(m, r=None):
    from mrmustard.physics.wires import Wires

    a = [set(x) for x in m.args()]
    if r is not None:
        k = int(r.integers(3))
        if k == 1:  # the arguments may be any iterable: order must not matter
            a = [tuple(r.permutation(sorted(x)).tolist()) for x in a]
        if k == 2:
            a = [x or None for x in a]
    return Wires(*a)


def same(ctx, w, m, key, indices=True):
    note = f"{ctx.note}"
    ctx.ok(tuple(set(x) for x in w.args) == m.args(), key + ":args", f"{w.args} expected {m.args()} {note}")
    ctx.ok(set(w.modes) == m.modes(), key + ":modes", f"{w.modes} expected {m.modes()} {note}")
    ctx.ok(len(w) == len(m.p), key + ":len", f"{len(w)} expected {len(m.p)} {note}")
    ctx.ok(bool(w) == bool(m.p), key + ":bool", note)
    order = [port(x) for x in w.sorted_wires]
    ctx.ok(order == m.p, key + ":order", f"{order} expected {m.p} {note}")
    ctx.ok([port(x) for x in w] == m.p, key + ":iter", note)
    if indices:
        ctx.ok(tuple(w.indices) == tuple(range(len(m.p))), key + ":indices", f"{w.indices} {note}")
    ctx.ok(len(set(w.ids)) == len(m.p), key + ":ids", note)


def port(x):
    if hasattr(x, "is_ket"):
        return (("k" if x.is_ket else "b") + ("o" if x.is_out else "i"), x.mode)
    return ("c" + ("o" if x.is_out else "i"), x.mode)


def snap(w):
    return (tuple(frozenset(x) for x in w.args), tuple(w.indices), tuple(w.ids), tuple(port(x) for x in w.sorted_wires))


def model_matmul(a, b):
    """(ports of the result or None, contracted pairs)."""
    A, B = set(a.p), set(b.p)
    used_a = {(g + "o", m) for g in "bkc" for m in range(10000) if (g + "o", m) in A and (g + "i", m) in B} if False else {
        (g, m) for g, m in A if g[1] == "o" and (g[0] + "i", m) in B
    }
    used_b = {(g[0] + "i", m) for g, m in used_a}
    ra, rb = A - used_a, B - used_b
    if ra & rb:
        return None, None, None, None
    return M(ra | rb), sorted(used_a), [q for q in a.p if q in ra], [q for q in b.p if q in rb]


@monitor(800, 20000)
def histories(ctx):
    """random sequences of operations; every earlier object stays what it was."""
    r = ctx.rng
    labels = pool(r)
    live = []  # (wires, model, snapshot)

    def add(w, m, key, indices=True):
        same(ctx, w, m, key, indices)
        live.append((w, m, snap(w), indices))

    for _ in range(2):
        m = rand_model(r, labels)
        add(lib(m, r), m, "init")
    hist = []
    for _ in range(int(r.integers(3, 12))):
        op = str(r.choice(["new", "adjoint", "dual", "copy", "matmul", "add", "sub", "get", "sub_prop"]))
        i, j = int(r.integers(len(live))), int(r.integers(len(live)))
        (w, m, _, ind), (w2, m2, _, ind2) = live[i], live[j]
        hist.append((op, i, j))
        ctx.note = {"hist": hist, "m": [x[1].p for x in live]}
        if op == "new":
            m = rand_model(r, labels)
            add(lib(m, r), m, "init")
        elif op == "adjoint":
            add(w.adjoint, adj(m), "adjoint")
        elif op == "dual":
            add(w.dual, dual(m), "dual")
        elif op == "copy":
            new = bool(r.integers(2))
            c = w.copy(new_ids=new)
            add(c, m, "copy", ind)
            ctx.ok(new or tuple(c.ids) == tuple(w.ids), "copy:ids", f"{ctx.note}")
            ctx.ok((not new) or not (set(c.ids) & set(w.ids)), "copy:new-ids", f"{ctx.note}")
        elif op == "matmul":
            want, _, la, lb = model_matmul(m, m2)
            try:
                c, perm = w @ w2
            except ValueError:
                ctx.ok(want is None, "matmul:rejects-valid", f"{m.p} @ {m2.p} {ctx.note}")
                continue
            ctx.ok(want is not None, "matmul:accepts-overlap", f"{m.p} @ {m2.p}")
            comb = la + lb
            ctx.ok([comb[k] for k in perm] == want.p, "matmul:perm", f"{perm} for {comb} -> {want.p} {ctx.note}")
            add(c, want, "matmul")
        elif op == "add":
            try:
                c = w + w2
            except ValueError:
                ctx.ok(set(m.p) & set(m2.p), "add:rejects-valid", f"{m.p} + {m2.p} {ctx.note}")
                continue
            ctx.ok(not (set(m.p) & set(m2.p)), "add:accepts-overlap", f"{m.p} + {m2.p} {ctx.note}")
            add(c, M(m.p + m2.p), "add", False)
        elif op == "sub":
            add(w - w2, m.filt(lambda q: q[1] not in m2.modes()), "sub", False)
        elif op == "get":
            ms = [int(x) for x in r.choice(labels, size=int(r.integers(1, len(labels) + 1)), replace=False)]
            arg = ms[0] if len(ms) == 1 and r.integers(2) else (tuple(ms) if r.integers(2) else set(ms))
            c = w[arg]
            add(c, m.filt(lambda q: q[1] in ms), "get", False)
            if ind:
                ctx.ok(tuple(c.indices) == tuple(k for k, q in enumerate(m.p) if q[1] in ms), "get:indices", f"{c.indices} {ctx.note}")
        else:
            name, f = SUBS[int(r.integers(len(SUBS)))]
            c = getattr(w, name)
            add(c, m.filt(f), name, False)
            if ind:
                ctx.ok(tuple(c.indices) == tuple(k for k, q in enumerate(m.p) if f(q)), name + ":indices", f"{c.indices} {ctx.note}")
        for w0, m0, s0, i0 in live:
            ctx.ok(snap(w0) == s0, "history:operand-changed", f"{m0.p} after {hist} {ctx.note}")
            ctx.events += 1
        if len(live) > 8:
            live.pop(int(r.integers(len(live))))
    for w0, m0, s0, i0 in live:
        same(ctx, w0, m0, "final", i0)
    ctx.sig([h[0] for h in hist], len(labels))


SUBS = [
    ("input", lambda q: q[0][1] == "i"),
    ("output", lambda q: q[0][1] == "o"),
    ("bra", lambda q: q[0][0] == "b"),
    ("ket", lambda q: q[0][0] == "k"),
    ("quantum", lambda q: q[0][0] != "c"),
    ("classical", lambda q: q[0][0] == "c"),
]


@monitor(1500, 40000)
def subsets(ctx):
    """chained subsets in any order, with indices into the full data."""
    r = ctx.rng
    labels = pool(r)
    m = rand_model(r, labels)
    w = lib(m, r)
    if r.integers(2):
        w, m = w.adjoint, adj(m)
    if r.integers(3) == 0:
        w, m = w.dual, dual(m)
    cur, f = w, []
    for _ in range(int(r.integers(1, 4))):
        name, g = SUBS[int(r.integers(len(SUBS)))]
        cur = getattr(cur, name)
        f.append((name, g))
        if r.integers(3) == 0:
            ms = {int(x) for x in r.choice(labels, size=2, replace=False)}
            cur = cur[ms]
            f.append((str(ms), lambda q, ms=ms: q[1] in ms))
    names = [x[0] for x in f]
    ctx.note = {"m": m.p, "f": names}
    keep = [k for k, q in enumerate(m.p) if all(g(q) for _, g in f)]
    ctx.ok(tuple(cur.indices) == tuple(keep), "subset:indices", f"{cur.indices} != {keep} {ctx.note}")
    ctx.ok([port(x) for x in cur.sorted_wires] == [m.p[k] for k in keep], "subset:ports", f"{ctx.note}")
    ctx.ok(tuple(cur.ids) == tuple(w.ids[k] for k in keep), "subset:ids", f"{ctx.note}")
    ctx.sig(names, len(m.p))


@monitor(2500, 60000)
def matmul(ctx):
    """composition: result ports, permutation, rejection; associativity of the ports."""
    r = ctx.rng
    labels = pool(r)
    ms = [rand_model(r, labels, p=float(r.choice([0.1, 0.2, 0.4]))) for _ in range(3)]
    if r.integers(3) == 0:
        ms[1] = ms[0]
    ws = [lib(x, r) for x in ms]
    if r.integers(4) == 0:
        ms[1], ws[1] = ms[0], (ws[0] if r.integers(2) else ws[0].copy())
    s0 = [snap(w) for w in ws]
    ctx.note = {"m": [x.p for x in ms]}

    def mm(w, m, w2, m2):
        want, _, la, lb = model_matmul(m, m2)
        try:
            c, perm = w @ w2
        except ValueError:
            ctx.ok(want is None, "matmul:rejects-valid", f"{m.p} @ {m2.p}")
            return None, None
        ctx.ok(want is not None, "matmul:accepts-overlap", f"{m.p} @ {m2.p}")
        comb = la + lb
        ctx.ok(sorted(perm) == list(range(len(comb))), "matmul:perm-bijection", f"{perm} {ctx.note}")
        ctx.ok([comb[k] for k in perm] == want.p, "matmul:perm", f"{perm} for {comb} -> {want.p}")
        same(ctx, c, want, "matmul")
        ids = {p: i for p, i in zip(m.p, w.ids)} | {p: i for p, i in zip(m2.p, w2.ids)}
        if not (set(w.ids) & set(w2.ids)):
            src = {p: i for p, i in zip(la, [dict(zip(m.p, w.ids))[p] for p in la])} | {p: dict(zip(m2.p, w2.ids))[p] for p in lb}
            ctx.ok(tuple(c.ids) == tuple(src[p] for p in want.p), "matmul:ids", f"{ctx.note}")
        return c, want

    c, m = mm(ws[0], ms[0], ws[1], ms[1])
    if c is not None:
        mm(c, m, ws[2], ms[2])
        mm(c.adjoint, adj(m), ws[2].adjoint, adj(ms[2]))
        mm(ws[2].dual, dual(ms[2]), c.dual, dual(m))
    for a, b in zip(ws, s0):
        ctx.ok(snap(a) == b, "matmul:operand-changed", f"{ctx.note}")
    ctx.sig([len(x.p) for x in ms], c is None)


@monitor(2500, 60000)
def labels(ctx):
    """contracted indices and labels describe exactly the model's contraction."""
    r = ctx.rng
    lab = pool(r)
    a = rand_model(r, lab, classical=False, p=float(r.choice([0.12, 0.3])))
    b = rand_model(r, lab, classical=False, p=float(r.choice([0.12, 0.3])))
    want, used, la, lb = model_matmul(a, b)
    if want is None:
        raise Skip("overlap")
    wa, wb = lib(a, r), lib(b, r)
    if a.p == b.p and r.integers(2):
        wb = wa
    ctx.note = {"a": a.p, "b": b.p}
    ob, ok_ = wa.overlap(wb)
    ctx.ok(set(ob) == {m for g, m in used if g == "bo"} and set(ok_) == {m for g, m in used if g == "ko"}, "overlap", f"{ob} {ok_} {ctx.note}")
    ia, ib = wa.contracted_indices(wb)
    pairs = sorted((a.p.index(q), b.p.index((q[0][0] + "i", q[1]))) for q in used)
    ctx.ok(sorted(zip(ia, ib)) == pairs, "contracted_indices", f"{ia} {ib} expected {pairs} {ctx.note}")
    A, B, out = wa.contracted_labels(wb)
    ctx.ok(len(A) == len(a.p) and len(B) == len(b.p), "labels:len", f"{A} {B} {ctx.note}")
    ctx.ok(len(set(A)) == len(A) and len(set(B)) == len(B), "labels:unique", f"{A} {B} {ctx.note}")
    common = sorted((A.index(x), B.index(x)) for x in set(A) & set(B))
    ctx.ok(common == pairs, "labels:common", f"{A} {B} expected pairs {pairs} {ctx.note}")
    src = {q: A[a.p.index(q)] for q in la} | {q: B[b.p.index(q)] for q in lb}
    ctx.ok(list(out) == [src[q] for q in want.p], "labels:out", f"{A} {B} {out} {ctx.note}")
    ctx.sig(len(a.p), len(b.p), len(used))


@monitor(500, 8000)
def components(ctx):
    """contraction of components with random wires and random data = labelled tensor contraction."""
    from mrmustard.lab import CircuitComponent
    from mrmustard.physics.ansatz import ArrayAnsatz

    r = ctx.rng
    lab = pool(r)
    a = rand_model(r, lab[:4], classical=False, p=0.25)
    b = rand_model(r, lab[:4], classical=False, p=0.25)
    want, used, la, lb = model_matmul(a, b)
    if want is None or len(a.p) > 6 or len(b.p) > 6:
        raise Skip("overlap")
    da, db = [int(x) for x in r.integers(1, 4, size=len(a.p))], [int(x) for x in r.integers(1, 4, size=len(b.p))]
    for q in used:
        db[b.p.index((q[0][0] + "i", q[1]))] = da[a.p.index(q)]
    X = r.normal(size=da) + 1j * r.normal(size=da)
    Y = r.normal(size=db) + 1j * r.normal(size=db)
    ctx.note = {"a": a.p, "b": b.p, "da": da, "db": db}
    if r.integers(2):
        ca = CircuitComponent(ansatz=ArrayAnsatz(X, 0), wires=lib(a))
        cb = CircuitComponent(ansatz=ArrayAnsatz(Y, 0), wires=lib(b))
    else:
        # same component obtained through adjoints: the data are conjugated and reordered
        ca = adjoint_of(a, X)
        cb = adjoint_of(b, Y)
    num = {}
    for q in a.p:
        num[("a", q)] = len(num)
    for q in b.p:
        num[("b", q)] = len(num)
    for q in used:
        num[("b", (q[0][0] + "i", q[1]))] = num[("a", q)]
    out = [num[("a", q)] if q in la else num[("b", q)] for q in want.p]
    ref = np.einsum(X, [num[("a", q)] for q in a.p], Y, [num[("b", q)] for q in b.p], out)
    c = ca.contract(cb)
    same(ctx, c.wires, want, "component")
    ctx.close(np.asarray(c.ansatz.array), ref, "component:data", tol=1e-10)
    # relabelling
    new = sorted(int(x) for x in r.choice(500, size=len(want.modes()), replace=False))
    if want.p and all(s == want.args()[k] for s in want.args()[:4] if s for k in [next(i for i in range(4) if want.args()[i])]):
        d = c.on(tuple(new))
        ren = dict(zip(sorted(want.modes()), new))
        same(ctx, d.wires, M([(g, ren[m]) for g, m in want.p]), "on")
        ctx.close(np.asarray(d.ansatz.array), ref, "on:data", tol=1e-10)
        same(ctx, c.wires, want, "on:original")
    ctx.sig(len(a.p), len(b.p), len(used))


def adjoint_of(m, X):
    from mrmustard.lab import CircuitComponent
    from mrmustard.physics.ansatz import ArrayAnsatz

    d = adj(m)
    perm = [m.p.index(((ADJ[g[0]] + g[1]), x)) for g, x in d.p]
    c = CircuitComponent(ansatz=ArrayAnsatz(X.transpose(perm).conj() if X.ndim else X.conj(), 0), wires=lib(d))
    return c.adjoint


@monitor(600, 10000)
def hash_eq(ctx):
    """equality and hash depend only on the ports, whatever the way the wires were made."""
    r = ctx.rng
    labels = pool(r)
    m = rand_model(r, labels)
    variants = [lib(m, r), lib(m, r), lib(adj(m)).adjoint, lib(dual(m)).dual, lib(m).copy(), lib(m).copy(new_ids=True)]
    half = set(m.p[:: 2])
    variants.append(lib(m.filt(lambda q: q in half)) + lib(m.filt(lambda q: q not in half)))
    variants.append((lib(adj(m).filt(lambda q: True))).adjoint + lib(M([])))
    ctx.note = {"m": m.p}
    for a, b in itertools.combinations(variants, 2):
        ctx.ok(a == b, "eq", f"{m.p}")
        ctx.ok(hash(a) == hash(b), "hash", f"{m.p}")
    m2 = rand_model(r, labels)
    ctx.ok((variants[0] == lib(m2)) == (m.p == m2.p), "neq", f"{m.p} {m2.p}")
    # overlaps are seen whatever the way the wires were made
    if m.p:
        for v in variants[2:4]:
            q = m.p[int(r.integers(len(m.p)))]
            for pair in ((v, lib(M([q]))), (lib(M([q])), v)):
                try:
                    pair[0] + pair[1]
                    ctx.ok(False, "add:accepts-overlap", f"{m.p} + {q}")
                except ValueError:
                    ctx.ok(True, "add:accepts-overlap")
    ctx.sig(len(m.p), len(labels))
