"""P07: results do not depend on contraction order, path or representation."""

from __future__ import annotations

import itertools

import numpy as np

from mmv import circ
from mmv.core import Skip, monitor
from mmv.checks.p06 import check_ps, phase_align

RULE = (
    "one case = one random circuit; every (small circuits) or many (large circuits) valid contraction schedules, representation assignments, "
    "mm_einsum paths or optimiser runs are executed and each result is compared with an independent simulation; "
    "events = compared numbers; distinct = (circuit, schedule) pairs"
)
ASSUMPTIONS = [
    "a valid schedule contracts u before v only if no component must act between them, and never closes a part of the circuit into a plain number before the end",
    "Fock results: small parameters, cutoff 9-14, lowest 3-4 amplitudes compared to 3e-4",
    "optimize(): closed circuits on one side (ket or bra and ket), the domain it accepts; labels reused after a measurement are a recorded finding",
]
MON = ["gauss_schedules", "fock_schedules", "representations", "einsum_paths", "optimized_paths", "optimized_numbers", "bracketing", "optimize_reuse",
       "scalar_left", "path_errors"]


def groups(tier):
    return [
        {"backend": "numpy", "shards": 6, "monitors": MON},
        {"backend": "jax", "shards": 2, "monitors": MON, "label": "jax", "scale": 0.12},
    ]


class Group:
    """labels in/out of a contracted part, and its original indices."""

    def __init__(self, idx, ins, outs, has_trace=False):
        self.idx, self.ins, self.outs, self.tr = idx, ins, outs, has_trace


def leaf(i, o):
    m = frozenset(o.modes)
    if o.kind == "state":
        return Group((i,), frozenset(), m)
    if o.kind == "end":
        return Group((i,), m, frozenset(), o.name == "TraceOut")
    return Group((i,), m, m)


def precede(ops):
    return {(i, j) for i in range(len(ops)) for j in range(i + 1, len(ops)) if set(ops[i].modes) & set(ops[j].modes)}


def moves(groups, order):
    """valid (u, v): contract groups[u] >> groups[v]."""
    n = len(groups)
    pos = {}
    for k, g in enumerate(groups):
        for i in g.idx:
            pos[i] = k
    E = {(pos[i], pos[j]) for i, j in order if pos[i] != pos[j]}
    succ = {k: {b for a, b in E if a == k} for k in range(n)}
    reach = {}

    def R(k):
        if k not in reach:
            reach[k] = set()
            s = set()
            for x in succ[k]:
                s |= {x} | R(x)
            reach[k] = s
        return reach[k]

    out = []
    for a in range(n):
        for b in range(n):
            if a == b or a in R(b):
                continue
            if b in R(a) and any(b in R(c) for c in succ[a] if c != b):
                continue
            g = merge(groups[a], groups[b])
            if g is None:
                continue
            if not g.ins and not g.outs and n > 2:
                continue
            if groups[a].tr or (groups[b].tr and not groups[b].ins <= groups[a].outs):
                continue  # a partial trace acts on something that has its modes
            out.append((a, b))
    return out


def merge(u, v):
    ov = u.outs & v.ins
    ins, outs = u.ins | (v.ins - ov), (u.outs - ov) | v.outs
    if (u.ins & (v.ins - ov)) or ((u.outs - ov) & v.outs):
        return None  # would need two wires with the same label
    return Group(u.idx + v.idx, ins, outs)


def schedules(r, ops, cap):
    """list of paths (pairs of representative original indices), exhaustive when fewer than cap."""
    order = precede(ops)
    start = [leaf(i, o) for i, o in enumerate(ops)]
    out, full = [], True

    def rec(groups, path):
        nonlocal full
        if len(out) >= cap:
            full = False
            return
        if len(groups) == 1:
            out.append(tuple(path))
            return
        for a, b in moves(groups, order):
            g = merge(groups[a], groups[b])
            rest = [x for k, x in enumerate(groups) if k not in (a, b)]
            # the library keeps the key of the left component
            g.key = getattr(groups[a], "key", groups[a].idx[0])
            kb = getattr(groups[b], "key", groups[b].idx[0])
            rec([*rest, g], [*path, (g.key, kb)])

    if len(ops) <= 4:
        rec(start, [])
        if full:
            return out, True
        out.clear()
    for _ in range(cap):
        groups, path = list(start), []
        while len(groups) > 1:
            mv = moves(groups, order)
            if not mv:
                path = None
                break
            a, b = mv[int(r.integers(len(mv)))]
            g = merge(groups[a], groups[b])
            g.key = getattr(groups[a], "key", groups[a].idx[0])
            kb = getattr(groups[b], "key", groups[b].idx[0])
            path.append((g.key, kb))
            groups = [x for k, x in enumerate(groups) if k not in (a, b)] + [g]
        if path is not None:
            out.append(tuple(path))
    return sorted(set(out)), False


@monitor(16, 300)
def gauss_schedules(ctx):
    """Gaussian circuits: Circuit with every valid path."""
    from mrmustard.lab import Circuit

    r = ctx.rng
    w = {"a": 1.0, "r": 0.7, "nbar": 1.2, "g": 1.6, "hbar": 1.0, "N": 1}
    pure = bool(r.integers(2))
    ops = circ.program(r, circ.GAUSS, w, nops=int(r.integers(3, 8)), maxmodes=3, allow_mixed=not pure)
    p = circ.run_ps(ops, 1.0)
    if p.w < 1e-6 or np.max(np.abs(p.V)) > 100 or not p.modes:
        raise Skip("extreme")
    ps, full = schedules(r, ops, 24 if ctx.tier == "quick" else 60)
    comps = [o.make() for o in ops]
    for path in ps:
        ctx.note = {"ops": [repr(o) for o in ops], "path": path, "exhaustive": full}
        c = Circuit(comps)
        c.path = list(path)
        got = c.contract()
        check_any(ctx, got, p, "gsched")
        ctx.sig(*[o.name for o in ops], [list(o.modes) for o in ops], path)


def check_any(ctx, got, p, key):
    """result may be a ket or a density matrix (a pure circuit with a late bra gives either)."""
    check_ps(ctx, got, p, key, 1.0)


@monitor(8, 150)
def fock_schedules(ctx):
    """non-Gaussian circuits: every valid path gives the simulated amplitudes."""
    from mrmustard import settings
    from mrmustard.lab import Circuit

    r = ctx.rng
    pure = bool(r.integers(3))
    ops, ref, K, N = fock_ops(r, pure, 2 if pure else 1)
    want = ref.mm(K)
    if np.max(np.abs(want)) < 1e-5:
        raise Skip("zero")
    ps, full = schedules(r, ops, 10 if ctx.tier == "quick" else 30)
    comps = [o.make() for o in ops]
    for path in ps:
        ctx.note = {"ops": [repr(o) for o in ops], "path": path, "exhaustive": full}
        c = Circuit(comps)
        c.path = list(path)
        with settings(AUTOSHAPE_MIN=N, AUTOSHAPE_MAX=N, DEFAULT_FOCK_SIZE=N):
            got = c.contract()
        compare_fock(ctx, got, want, ops, ref, K, "fsched")
        ctx.sig(*[o.name for o in ops], [list(o.modes) for o in ops], path)


def fock_ops(r, pure, maxmodes, N=14, nops=(3, 6), ends=True, a=0.35, rr=0.2):
    w = {"a": a, "r": rr, "nbar": 0.2, "g": 1.1, "N": N, "number": str(r.choice(["fock", "bargmann"])), "ncut": None}
    cat = {k: [x for x in v if x[0] not in (circ.c_pn, circ.st_sauron)] for k, v in circ.FOCK.items()}
    for _ in range(200):
        ops = circ.program(r, cat, w, nops=int(r.integers(*nops)), maxmodes=maxmodes, allow_mixed=not pure,
                           p=(0.3, 0.4, 0.12, 0.18), ends=ends)
        exc = sum(o.par for o in ops if o.name == "Number") + sum(o.name in ("Amplifier", "S2gate", "Sgate") for o in ops)
        if exc > 5 or len(ops) < 3:
            continue
        if pure and any(o.name == "TraceOut" for o in ops):
            continue
        ref = circ.run_fk(ops)
        if ref.modes:
            return ops, ref, (3 if not pure else 4), 12
    raise Skip("no program")


def compare_fock(ctx, got, want, ops, ref, K, key):
    from mrmustard.lab import DM, Ket

    ctx.ok(isinstance(got, (Ket, DM)), key + ":class", f"{type(got)} {ctx.note}")
    ctx.ok(list(got.modes) == ref.modes, key + ":modes", f"{got.modes} != {ref.modes} {ctx.note}")
    ctx.ok(isinstance(got, Ket) == ref.pure, key + ":ketness", f"{type(got)} {ctx.note}")
    arr = np.asarray(got.fock_array((K,) * want.ndim))
    if any(not o.phase for o in ops) and ref.pure:
        arr = phase_align(arr, want)
    ctx.close(arr, want, key, tol=4e-4 * max(1.0, float(np.max(np.abs(want)))), rel=0)


@monitor(12, 250)
def representations(ctx):
    """any subset of the components converted to Fock (or kept in Bargmann) gives the same state."""
    from mrmustard import settings

    r = ctx.rng
    pure = bool(r.integers(3))
    ops, ref, K, N = fock_ops(r, pure, 2 if pure else 1, a=0.3, rr=0.18)
    want = ref.mm(K)
    if np.max(np.abs(want)) < 1e-5:
        raise Skip("zero")
    for _ in range(4 if ctx.tier == "quick" else 8):
        mask = [bool(x) for x in r.integers(2, size=len(ops))]
        ctx.note = {"ops": [repr(o) for o in ops], "fock": mask}
        with settings(AUTOSHAPE_MIN=N, AUTOSHAPE_MAX=N, DEFAULT_FOCK_SIZE=N):
            s = None
            for o, m in zip(ops, mask):
                c = o.make()
                if m and o.name not in ("TraceOut",):
                    nw = len(c.wires.quantum)
                    c = c.to_fock((N,) * nw) if r.integers(2) or nw == 0 else c.to_fock(N)
                s = c if s is None else s >> c
        compare_fock(ctx, s, want, ops, ref, K, "repr")
        ctx.sig(*[o.name for o in ops], mask)


def lines_of(ops, r):
    """integer index of every wire of every (pure) component, in the standard order of its data."""
    cur, nxt, out = {}, 0, []
    perm = [int(x) for x in r.permutation(60)]
    for o in ops:
        ms = sorted(o.modes)
        ins = [cur.pop(m) for m in ms] if o.kind != "state" else []
        outs = []
        if o.kind != "end":
            for m in ms:
                outs.append(perm[nxt])
                cur[m] = perm[nxt]
                nxt += 1
        out.append(outs + ins)
    return out, [cur[m] for m in sorted(cur)]


@monitor(24, 500)
def einsum_paths(ctx):
    """mm_einsum over every kind of path gives the amplitudes of the circuit."""
    from mrmustard.physics.mm_einsum import mm_einsum

    r = ctx.rng
    ops, ref, K, N = fock_ops(r, True, 2, nops=(3, 7))
    want = ref.mm(K)
    if np.max(np.abs(want)) < 1e-5:
        raise Skip("zero")
    idx, outp = lines_of(ops, r)
    ans = [o.make().ansatz for o in ops]
    for _ in range(4 if ctx.tier == "quick" else 8):
        mode = str(r.choice(["barg", "fock", "mix"]))
        dims = {}
        for i in {i for x in idx for i in x}:
            dims[i] = 0 if mode == "barg" else N if mode == "fock" else int(r.choice([0, N]))
        perm = [int(x) for x in r.permutation(len(outp))]
        out = [outp[i] for i in perm]
        path = connected_path(r, idx)
        if path is None:
            raise Skip("disconnected")
        ssa, lin, ua = path
        kind = str(r.choice(["LA", "SSA", "UA"]))
        ctx.note = {"ops": [repr(o) for o in ops], "idx": idx, "dims": dims, "path": (ssa, lin, ua), "kind": kind, "out": out}
        args = [z for a, i in zip(ans, idx) for z in (a, list(i))]
        try:
            res = mm_einsum(*args, output=out, fock_dims=dims, contraction_path={"LA": lin, "SSA": ssa, "UA": ua}[kind],
                            path_type=kind)
        except ValueError as e:
            if mode == "mix" and ("mixed-type" in str(e) or "dimension is 0" in str(e)):
                ctx.sig("refused", mode)
                continue
            raise
        got = fock_of(res, K, len(out))
        w = want.transpose(perm) if perm else want
        if any(not o.phase for o in ops):
            got = phase_align(got, w)
        ctx.close(got, w, "einsum:" + kind, tol=4e-4 * max(1.0, float(np.max(np.abs(want)))), rel=0)
        ctx.sig(*[o.name for o in ops], kind, mode, lin)


def fock_of(ansatz, K, n):
    from mrmustard.physics.ansatz import ArrayAnsatz
    from mmv.checks.p05 import result_fock

    if isinstance(ansatz, ArrayAnsatz):
        return np.asarray(ansatz.reduce((K,) * n).array)
    return result_fock(ansatz, (K,) * n)


def connected_path(r, idx):
    """random pairwise path over connected operands: (ssa, linear, ua)."""
    n = len(idx)
    live = {k: (set(idx[k]), [k]) for k in range(n)}  # ssa id -> (labels, originals)
    lin_ids = list(range(n))
    ssa, lin, ua, nxt = [], [], [], n
    while len(live) > 1:
        keys = list(live)
        cand = [(a, b) for a, b in itertools.permutations(keys, 2) if live[a][0] & live[b][0]]
        if not cand:
            return None
        a, b = cand[int(r.integers(len(cand)))]
        la, lb = lin_ids.index(a), lin_ids.index(b)
        lin.append((la, lb))
        ssa.append((a, b))
        ua.append((int(r.choice(live[a][1])), int(r.choice(live[b][1]))))
        for x in sorted((la, lb), reverse=True):
            lin_ids.pop(x)
        lin_ids.append(nxt)
        (A, oa), (B, ob) = live.pop(a), live.pop(b)
        live[nxt] = (A ^ B, oa + ob)
        nxt += 1
    return ssa, lin, ua


def closed_program(r, gaussian, maxmodes, N, reuse=False):
    w = {"a": 0.35, "r": 0.2, "nbar": 0.2, "g": 1.1, "N": N, "number": "fock", "ncut": None, "hbar": 1.0}
    src = circ.GAUSS if gaussian else circ.FOCK
    bad = (circ.st_sauron, circ.st_cat, circ.st_cat2, circ.c_pn, circ.st_gket, circ.g_ggate)
    cat = {k: [x for x in v if x[0] not in bad] for k, v in src.items()}
    for _ in range(300):
        ops = circ.program(r, cat, w, nops=int(r.integers(3, 7)), maxmodes=maxmodes, allow_mixed=False, ends=False,
                           p=(0.35, 0.65, 0.0, 0.0))
        live = sorted({m for o in ops for m in o.modes})
        for m in [int(x) for x in r.permutation(live)]:
            ops.append(circ.pick(r, {"end": [(circ.e_coh, 1), (circ.e_dsq, 1)] + ([] if gaussian else [(circ.e_num, 1)] * 2)},
                                 "end", [m], w))
        exc = sum(o.par for o in ops if o.name in ("Number",))
        if exc > 5:
            continue
        # connected?
        comp = {i: {i} for i in range(len(ops))}
        for i, j in precede(ops):
            if comp[i] is not comp[j]:
                comp[i] |= comp[j]
                for x in comp[j]:
                    comp[x] = comp[i]
        if len(comp[0]) == len(ops) and len(ops) <= 9:
            return ops
    raise Skip("no program")


@monitor(140, 1500)
def optimized_numbers(ctx):
    """photon-number circuits with exact Fock shapes: optimize() must keep every shape large enough for the exact amplitude."""
    import random

    from mrmustard.lab import BSgate, Circuit, Number, Rgate

    r = ctx.rng
    M = int(r.choice([2, 2, 3, 4] if ctx.tier == "thorough" else [2, 2, 3]))
    labels = [int(x) for x in r.choice(circ.LABELS, size=M, replace=False)]
    tot = int(r.integers(1, 6 if M < 4 else 4))

    def split():
        n = [0] * M
        for _ in range(tot):
            n[int(r.integers(M))] += 1
        return n

    nin, nout = split(), split()
    gates = []
    for k in range(M - 1):  # connected
        gates.append((sorted([labels[k], labels[k + 1]]), float(r.uniform(0.2, 1.3)), float(r.uniform(-2, 2))))
    for _ in range(int(r.integers(0, 2))):
        gates.append((sorted(int(x) for x in r.choice(labels, size=2, replace=False)), float(r.uniform(0.2, 1.3)), float(r.uniform(-2, 2))))
    gates = [gates[int(i)] for i in r.permutation(len(gates))]
    U = np.eye(M, dtype=complex)  # a_out = U a_in
    for (a, b), th, ph in gates:
        i, j = labels.index(a), labels.index(b)
        B = np.eye(M, dtype=complex)
        B[i, i] = B[j, j] = np.cos(th)
        B[i, j] = -np.exp(-1j * ph) * np.sin(th)
        B[j, i] = np.exp(1j * ph) * np.sin(th)
        U = B @ U
    rows = [i for i, n in enumerate(nout) for _ in range(n)]
    cols = [i for i, n in enumerate(nin) for _ in range(n)]
    perm = 0
    import itertools
    import math as pm

    for s in itertools.permutations(range(tot)):
        x = 1
        for k in range(tot):
            x = x * U[rows[k], cols[s[k]]]
        perm += x
    want = perm / np.sqrt(np.prod([float(pm.factorial(n)) for n in nin + nout]))
    heur = bool(r.integers(2))
    mode = int(r.choice([0, 1, 1, 2]))  # which components are given in Fock form with exact shapes

    def num(m, n):
        c = Number(m, n)
        return c.to_fock(n + 1 + int(r.integers(2))) if mode == 1 or (mode == 2 and r.integers(2)) else c

    comps = [num(m, n) for m, n in zip(labels, nin)] + [BSgate(tuple(ab), th, ph) for ab, th, ph in gates]
    comps += [num(m, n).dual for m, n in zip(labels, nout)]
    seed = int(r.integers(1000))
    ctx.note = {"labels": labels, "in": nin, "out": nout, "gates": gates, "heuristic": heur, "seed": seed, "fock": mode}
    random.seed(seed)
    c = Circuit(comps)
    c.optimize(n_init=int(r.integers(1, 5)), with_BF_heuristic=heur, verbose=False)
    got = np.asarray(c.contract())
    ctx.close(got, np.asarray(want), "optnum:value", tol=1e-8, rel=0)
    ctx.sig(nin, nout, [g[0] for g in gates], c.path)


@monitor(10, 250)
def optimized_paths(ctx):
    """Circuit.optimize on closed circuits: a complete path whose contraction is the amplitude of the circuit."""
    import random

    from mrmustard import settings
    from mrmustard.lab import Circuit

    r = ctx.rng
    gaussian = bool(r.integers(3) == 0)
    ops = closed_program(r, gaussian, int(r.integers(1, 4)), 14)
    want = complex(np.asarray(circ.run_fk(ops).T))
    tol = 4e-4
    if any(not o.phase for o in ops):
        want = abs(want)
    for k in range(3):
        seed = int(r.integers(1000))
        random.seed(seed)
        heur = bool(r.integers(2))
        n_init = int(r.integers(1, 8))
        ctx.note = {"ops": [repr(o) for o in ops], "seed": seed, "heuristic": heur, "n_init": n_init}
        with settings(AUTOSHAPE_PROBABILITY=1 - 1e-9, AUTOSHAPE_MAX=12, AUTOSHAPE_MIN=8 if gaussian else 1):
            c = Circuit([o.make() for o in ops])
            c.optimize(n_init=n_init, with_BF_heuristic=heur, verbose=False)
            ctx.ok(len(c.path) == len(ops) - 1, "opt:path-length", f"{c.path} {ctx.note}")
            used = set()
            for a, b in c.path:
                ctx.ok(a not in used and b not in used and a != b, "opt:path-indices", f"{c.path} {ctx.note}")
                used.add(b)
            got = np.asarray(c.contract())
        ctx.ok(got.shape == (), "opt:scalar", f"{got.shape}")
        got = abs(complex(got)) if any(not o.phase for o in ops) else complex(got)
        ctx.note["path"] = c.path
        ctx.close(np.asarray(got), np.asarray(want), "opt:value", tol=tol, rel=0)
        ctx.sig(*[o.name for o in ops], c.path)


@monitor(1, 2)
def optimize_reuse(ctx):
    """label 1 is measured and prepared again before it meets mode 0 once more."""
    import random

    from mrmustard.lab import BSgate, Circuit, Coherent, Number, Vacuum

    ops = [Number(0, 1), Vacuum(1), BSgate((0, 1), 0.6), Number(1, 0).dual, Coherent(1, alpha=0.3), BSgate((0, 1), 0.4),
           Number(1, 1).dual, Number(0, 0).dual]
    seq = None
    for o in ops:
        seq = o if seq is None else seq >> o
    seq = complex(np.asarray(seq))
    bad = 0
    for k in range(12):
        random.seed(k)
        c = Circuit(ops)
        try:
            c.optimize(n_init=3, verbose=False)
            got = complex(np.asarray(c.contract()))
            ctx.ok(abs(got - seq) < 1e-6, "opt:reused-label-silent", f"{got} != {seq} {c.path}")
        except ValueError:
            bad += 1
        ctx.events += 1
    ctx.sig("reuse")
    ctx.ok(bad == 0, "opt:reused-label", f"{bad} of 12 optimised paths of a circuit that reuses label 1 after a projection are not executable")


@monitor(1, 2)
def scalar_left(ctx):
    """a circuit whose first part closes to a number keeps the state prepared afterwards."""
    from mrmustard.lab import Circuit, Coherent, Ket, Vacuum

    c = Circuit([Vacuum(0), Vacuum(0).dual, Coherent(1, alpha=0.5)])
    got = c.contract()
    ctx.sig("scalar")
    ctx.ok(isinstance(got, Ket), "scalar-rshift:drops-component", f"contract() of a circuit with a closed part gives {got!r} and not the state of mode 1")


@monitor(14, 300)
def bracketing(ctx):
    """associativity: any bracketing of >> on adjacent parts of a circuit."""
    r = ctx.rng
    w = {"a": 0.9, "r": 0.6, "nbar": 1.0, "g": 1.5, "hbar": 1.0, "N": 1}
    ops = circ.program(r, circ.GAUSS, w, nops=int(r.integers(4, 9)), maxmodes=4)
    p = circ.run_ps(ops, 1.0)
    if p.w < 1e-6 or np.max(np.abs(p.V)) > 100 or not p.modes:
        raise Skip("extreme")

    def build(lo, hi):
        if hi - lo == 1:
            return ops[lo].make(), str(lo)
        for _ in range(10):
            k = int(r.integers(lo + 1, hi))
            if valid(lo, k) and valid(k, hi):
                break
        else:
            k = hi - 1
        if not (valid(lo, k) and valid(k, hi)):
            raise Skip("no bracketing")
        (a, sa), (b, sb) = build(lo, k), build(k, hi)
        return a >> b, f"({sa}>>{sb})"

    def valid(lo, hi):
        g = leaf(lo, ops[lo])
        if ops[lo].name == "TraceOut" and hi - lo > 1:
            return False
        for i in range(lo + 1, hi):
            if ops[i].name == "TraceOut" and not set(ops[i].modes) <= g.outs:
                return False
            g = merge(g, leaf(i, ops[i]))
            if g is None or (not g.ins and not g.outs):
                return False
        return True

    for _ in range(6):
        ctx.note = {"ops": [repr(o) for o in ops]}
        got, br = build(0, len(ops))
        ctx.note["bracketing"] = br
        check_any(ctx, got, p, "bracket")
        ctx.sig(*[o.name for o in ops], br)


@monitor(6, 40)
def path_errors(ctx):
    """incomplete or impossible paths are rejected, overlapping components too; >> extends a circuit without changing it."""
    from mrmustard.lab import Circuit

    r = ctx.rng
    w = {"a": 0.9, "r": 0.6, "nbar": 1.0, "g": 1.5, "hbar": 1.0, "N": 1}
    ops = circ.program(r, circ.GAUSS, w, nops=5, maxmodes=3)
    comps = [o.make() for o in ops]
    c = Circuit(comps)
    n = len(c)
    ctx.ok(n == len(ops) and c.path == [(0, i) for i in range(1, n)], "circuit:default-path", str(c.path))
    c2 = c >> comps[-1]
    ctx.ok(len(c) == n and len(c2) == n + 1 and all(c2[i] == comps[i] for i in range(n)), "circuit:extend")
    ctx.ok(c == Circuit(comps) and c != c2, "circuit:eq")
    bad = Circuit(comps)
    bad.path = list(bad.path)[: int(r.integers(0, n - 1))]
    try:
        bad.contract()
        ctx.ok(False, "circuit:incomplete-path", f"{bad.path} accepted")
    except ValueError:
        ctx.ok(True, "circuit:incomplete-path")
    bad.path = [(0, n + 3)]
    try:
        bad.check_contraction(1)
        ctx.ok(False, "circuit:bad-index", "accepted")
    except ValueError:
        ctx.ok(True, "circuit:bad-index")
    ctx.sig(*[o.name for o in ops])
