"""Random circuits: every operation carries the library component and its action on the two reference simulators."""

from __future__ import annotations

import numpy as np

from mmv import gen
from mmv.ref import fock as F
from mmv.ref import ps as G

LABELS = [0, 1, 2, 3, 4, 5, 7, 9, 10, 12]


class Op:
    """make() -> component; ps(PS)->PS (None if not Gaussian); fk(State)->State; phase: fixed global phase."""

    def __init__(self, name, modes, make, ps=None, fk=None, phase=True, ket=True, kind="gate", par=None):
        self.name, self.modes, self.make, self.ps, self.fk = name, tuple(modes), make, ps, fk
        self.phase, self.ket, self.kind, self.par = phase, ket, kind, par

    def __repr__(self):
        return f"{self.name}{list(self.modes)}{self.par if self.par is not None else ''}"


def u(r, lo, hi):
    return float(r.uniform(lo, hi))


def angle(r):
    return float(r.choice([0.0, np.pi / 2, np.pi, -np.pi / 2, r.uniform(-4, 4), r.uniform(-4, 4), r.uniform(-4, 4)]))


def amp(r, s):
    k = int(r.integers(5))
    z = s * np.sqrt(r.random()) * np.exp(1j * r.uniform(-np.pi, np.pi))
    return complex([z, z, z.real, 1j * z.imag, 0][k])


# ----------------------------------------------------------------------------------------------- states
def st_vacuum(r, modes, w):
    from mrmustard.lab import Vacuum

    M = len(modes)

    def fk(s):
        v = np.zeros((w["N"],) * M, complex)
        v[(0,) * M] = 1
        return s.tensor(modes, v, True)

    return Op("Vacuum", modes, lambda: Vacuum(tuple(modes)),
              lambda p: p.add(modes, np.zeros(2 * M), p.h / 2 * np.eye(2 * M)), fk, kind="state")


def _mu(al, h):
    return np.sqrt(2 * h) * np.array([al.real, al.imag])


def st_coherent(r, modes, w):
    from mrmustard.lab import Coherent

    al = amp(r, w["a"])
    return Op("Coherent", modes, lambda: Coherent(modes[0], alpha=al),
              lambda p: p.add(modes, _mu(al, p.h), p.h / 2 * np.eye(2)),
              lambda s: s.tensor(modes, F.coherent(al, w["N"]), True), kind="state", par=al)


def st_sqv(r, modes, w):
    from mrmustard.lab import SqueezedVacuum

    R, phi = u(r, -w["r"], w["r"]), angle(r)
    S = G.S_sq(R, phi)
    return Op("SqueezedVacuum", modes, lambda: SqueezedVacuum(modes[0], r=R, phi=phi),
              lambda p: p.add(modes, np.zeros(2), p.h / 2 * S @ S.T),
              lambda s: s.tensor(modes, F.S(R, phi, w["N"])[:, 0], True), kind="state", par=(R, phi))


def st_dsq(r, modes, w):
    from mrmustard.lab import DisplacedSqueezed

    al, R, phi = amp(r, w["a"]), u(r, -w["r"], w["r"]), angle(r)
    S = G.S_sq(R, phi)

    def fk(s):
        big = w["N"] + 8
        return s.tensor(modes, (F.D(al, big) @ F.S(R, phi, big)[:, 0])[: w["N"]], True)

    return Op("DisplacedSqueezed", modes, lambda: DisplacedSqueezed(modes[0], alpha=al, r=R, phi=phi),
              lambda p: p.add(modes, _mu(al, p.h), p.h / 2 * S @ S.T), fk, kind="state", par=(al, R, phi))


def st_tmsv(r, modes, w):
    from mrmustard.lab import TwoModeSqueezedVacuum

    modes = sorted(modes)
    R, phi = u(r, -w["r"], w["r"]), angle(r)
    S = G.S_s2(R, phi)
    return Op("TwoModeSqueezedVacuum", modes, lambda: TwoModeSqueezedVacuum(tuple(modes), r=R, phi=phi),
              lambda p: p.add(modes, np.zeros(4), p.h / 2 * S @ S.T),
              lambda s: s.tensor(modes, F.S2(R, phi, w["N"])[:, :, 0, 0], True), kind="state", par=(R, phi))


def st_thermal(r, modes, w):
    from mrmustard.lab import Thermal

    nb = u(r, 0, w["nbar"])

    def fk(s):
        n = np.arange(w["N"])
        return s.tensor(modes, np.diag((nb / (1 + nb)) ** n / (1 + nb)).astype(complex), False)

    return Op("Thermal", modes, lambda: Thermal(modes[0], nbar=nb),
              lambda p: p.add(modes, np.zeros(2), p.h * (nb + 0.5) * np.eye(2)), fk, ket=False, kind="state", par=nb)


def st_gket(r, modes, w):
    from mrmustard.lab import GKet

    modes = sorted(modes)
    S = gen.symplectic(r, len(modes), w["r"])
    return Op("GKet", modes, lambda: GKet(tuple(modes), S),
              lambda p: p.add(modes, np.zeros(2 * len(modes)), p.h / 2 * S @ S.T), None, kind="state", phase=False)


def st_gdm(r, modes, w):
    from mrmustard.lab import GDM

    modes = sorted(modes)
    S = gen.symplectic(r, len(modes), w["r"])
    beta = r.uniform(0.8, 4, size=len(modes))
    V = np.diag(np.tile(0.5 / np.tanh(beta / 2), 2))
    return Op("GDM", modes, lambda: GDM(tuple(modes), beta, S),
              lambda p: p.add(modes, np.zeros(2 * len(modes)), p.h * S @ V @ S.T), None, ket=False, kind="state",
              phase=False)


def st_number(r, modes, w):
    from mrmustard.lab import Number

    n = int(r.integers(0, 4))

    def fk(s):
        v = np.zeros(w["N"], complex)
        v[n] = 1
        return s.tensor(modes, v, True)

    barg = w.get("number") == "bargmann"

    def make():
        x = Number(modes[0], n, cutoff=w.get("ncut"))
        return x.to_bargmann() if barg else x

    return Op("Number", modes, make, None, fk, kind="state", par=n)


def st_cat(r, modes, w):
    from mrmustard.lab import Coherent

    al, be, c = amp(r, w["a"]), amp(r, w["a"]), complex(amp(r, 1.0)) + 0.3
    return Op("cat", modes, lambda: Coherent(modes[0], alpha=al) + c * Coherent(modes[0], alpha=be), None,
              lambda s: s.tensor(modes, F.coherent(al, w["N"]) + c * F.coherent(be, w["N"]), True), kind="state",
              par=(al, be, c))


def st_cat2(r, modes, w):
    from mrmustard.lab import Coherent

    al, be = amp(r, w["a"]), amp(r, w["a"])
    return Op("catp", modes, lambda: Coherent(modes[0], alpha=al) + Coherent(modes[0], alpha=be), None,
              lambda s: s.tensor(modes, F.coherent(al, w["N"]) + F.coherent(be, w["N"]), True), kind="state",
              par=(al, be))


def st_sauron(r, modes, w):
    from mrmustard.lab import Sauron

    n = int(r.integers(1, 4))
    eps = u(r, 0.3, 0.5)

    def fk(s):
        ww = np.exp(2j * np.pi / (n + 1))
        v = sum(ww**k * F.coherent(eps * ww**k, w["N"]) for k in range(n + 1))
        big = sum(ww**k * F.coherent(eps * ww**k, 40) for k in range(n + 1))
        return s.tensor(modes, v / np.linalg.norm(big), True)

    return Op("Sauron", modes, lambda: Sauron(modes[0], n, eps), None, fk, kind="state", par=(n, eps), phase=False)


# ----------------------------------------------------------------------------------------------- gates
def g_d(r, modes, w):
    from mrmustard.lab import Dgate

    al = amp(r, w["a"])
    return Op("Dgate", modes, lambda: Dgate(modes[0], alpha=al), lambda p: p.disp(modes[0], al),
              lambda s: s.apply(modes, F.D(al, w["N"])), par=al)


def g_s(r, modes, w):
    from mrmustard.lab import Sgate

    R, phi = u(r, -w["r"], w["r"]), angle(r)
    return Op("Sgate", modes, lambda: Sgate(modes[0], r=R, phi=phi), lambda p: p.chan(modes, G.S_sq(R, phi)),
              lambda s: s.apply(modes, F.S(R, phi, w["N"])), par=(R, phi))


def g_r(r, modes, w):
    from mrmustard.lab import Rgate

    th = angle(r)
    return Op("Rgate", modes, lambda: Rgate(modes[0], theta=th), lambda p: p.chan(modes, G.S_rot(th)),
              lambda s: s.apply(modes, F.R(th, w["N"])), par=th)


def g_p(r, modes, w):
    from mrmustard.lab import Pgate

    x = u(r, -w["r"], w["r"])
    return Op("Pgate", modes, lambda: Pgate(modes[0], x), lambda p: p.chan(modes, G.S_p(x)),
              lambda s: s.apply(modes, F.P(x, w["N"])), phase=False, par=x)


def g_id(r, modes, w):
    from mrmustard.lab import Identity

    return Op("Identity", modes, lambda: Identity(tuple(modes)), lambda p: p.copy(), lambda s: s)


def g_bs(r, modes, w):
    from mrmustard.lab import BSgate

    modes = sorted(modes)
    th, phi = angle(r), angle(r)
    return Op("BSgate", modes, lambda: BSgate(tuple(modes), theta=th, phi=phi), lambda p: p.chan(modes, G.S_bs(th, phi)),
              lambda s: s.apply(modes, F.BS(th, phi, w["N"])), par=(th, phi))


def g_s2(r, modes, w):
    from mrmustard.lab import S2gate

    modes = sorted(modes)
    R, phi = u(r, -w["r"], w["r"]), angle(r)
    return Op("S2gate", modes, lambda: S2gate(tuple(modes), r=R, phi=phi), lambda p: p.chan(modes, G.S_s2(R, phi)),
              lambda s: s.apply(modes, F.S2(R, phi, w["N"])), par=(R, phi))


def g_cx(r, modes, w):
    from mrmustard.lab import CXgate

    modes = sorted(modes)
    x = u(r, -w["r"], w["r"])
    return Op("CXgate", modes, lambda: CXgate(tuple(modes), x), lambda p: p.chan(modes, G.S_cx(x)),
              lambda s: s.apply(modes, F.CX(x, w["N"])), phase=False, par=x)


def g_cz(r, modes, w):
    from mrmustard.lab import CZgate

    modes = sorted(modes)
    x = u(r, -w["r"], w["r"])
    return Op("CZgate", modes, lambda: CZgate(tuple(modes), x), lambda p: p.chan(modes, G.S_cz(x)),
              lambda s: s.apply(modes, F.CZ(x, w["N"])), phase=False, par=x)


def g_mz(r, modes, w):
    from mrmustard.lab import MZgate

    modes = sorted(modes)
    a, b, i = angle(r), angle(r), bool(r.integers(2))
    U = G.U_mz(a, b, i)
    return Op("MZgate", modes, lambda: MZgate(tuple(modes), phi_a=a, phi_b=b, internal=i), lambda p: p.chan(modes, G.S_u(U)),
              lambda s: s.apply(modes, F.passive(U, w["N"])), phase=False, par=(a, b, i))


def g_int(r, modes, w):
    from mrmustard.lab import Interferometer

    modes = sorted(modes)
    U = gen.unitary(r, len(modes))
    return Op("Interferometer", modes, lambda: Interferometer(tuple(modes), U), lambda p: p.chan(modes, G.S_u(U)),
              lambda s: s.apply(modes, F.passive(U, w["N"])), phase=False)


def g_rint(r, modes, w):
    from mrmustard.lab import RealInterferometer

    modes = sorted(modes)
    O, _ = np.linalg.qr(r.normal(size=(len(modes),) * 2))
    return Op("RealInterferometer", modes, lambda: RealInterferometer(tuple(modes), O), lambda p: p.chan(modes, G.S_u(O)),
              lambda s: s.apply(modes, F.passive(O, w["N"])), phase=False)


def g_ggate(r, modes, w):
    from mrmustard.lab import Ggate

    modes = sorted(modes)
    S = gen.symplectic(r, len(modes), w["r"])
    return Op("Ggate", modes, lambda: Ggate(tuple(modes), S), lambda p: p.chan(modes, S), None, phase=False)


# -------------------------------------------------------------------------------------------- channels
def c_att(r, modes, w):
    from mrmustard.lab import Attenuator

    e = float(r.choice([0.0, 1.0, 0.5, r.uniform(0.05, 1), r.uniform(0.05, 1)]))
    return Op("Attenuator", modes, lambda: Attenuator(modes[0], e),
              lambda p: p.chan(modes, np.sqrt(e) * np.eye(2), p.h / 2 * (1 - e) * np.eye(2)),
              lambda s: s.kraus(modes, F.atten_kraus(e, w["N"])), ket=False, kind="channel", par=e)


def c_amp(r, modes, w):
    from mrmustard.lab import Amplifier

    g = float(r.choice([1.0, r.uniform(1, w["g"]), r.uniform(1, w["g"])]))
    return Op("Amplifier", modes, lambda: Amplifier(modes[0], g),
              lambda p: p.chan(modes, np.sqrt(g) * np.eye(2), p.h / 2 * (g - 1) * np.eye(2)),
              lambda s: s.kraus(modes, F.amp_kraus(g, w["N"])), ket=False, kind="channel", par=g)


def c_grn(r, modes, w):
    from mrmustard.lab import GaussRandNoise

    modes = sorted(modes)
    M = len(modes)
    B = r.normal(size=(2 * M, 2 * M)) * 0.3
    Y = B @ B.T
    return Op("GaussRandNoise", modes, lambda: GaussRandNoise(tuple(modes), Y),
              lambda p: p.chan(modes, np.eye(2 * M), Y), None, ket=False, kind="channel")


def c_xy(r, modes, w):
    from mrmustard.lab import Channel

    modes = sorted(modes)
    M = len(modes)
    X = r.normal(size=(2 * M, 2 * M)) * 0.7
    Om = np.block([[np.zeros((M, M)), np.eye(M)], [-np.eye(M), np.zeros((M, M))]])
    K = 1j * (Om - X @ Om @ X.T)
    lam = np.max(np.abs(np.linalg.eigvalsh(K)))
    B = r.normal(size=(2 * M, 2 * M)) * 0.2
    Y0 = 0.5 * lam * np.eye(2 * M) + B @ B.T  # hbar = 1
    h = w["hbar"]
    return Op("Channel.XY", modes, lambda: Channel.from_XY(tuple(modes), tuple(modes), X, h * Y0),
              lambda p: p.chan(modes, X, p.h * Y0), None, ket=False, kind="channel")


def c_pn(r, modes, w):
    from mrmustard.lab import PhaseNoise

    sd = u(r, 0, 1.5)
    return Op("PhaseNoise", modes, lambda: PhaseNoise(modes[0], sd), None, lambda s: s.phasenoise(modes[0], sd),
              ket=False, kind="channel", par=sd)


def c_damp(r, modes, w):
    from mrmustard.lab import FockDamping

    b = u(r, 0, 1.0)
    return Op("FockDamping", modes, lambda: FockDamping(modes[0], b), None,
              lambda s: s.apply(modes, F.damp(b, w["N"])), kind="op", par=b)


# ------------------------------------------------------------------------------------------------ ends
def e_trace(r, modes, w):
    from mrmustard.lab import TraceOut

    modes = sorted(modes)

    def fk(s):
        for m in modes:
            s = s.trace(m)
        return s

    return Op("TraceOut", modes, lambda: TraceOut(tuple(modes)), lambda p: p.trace(modes), fk, ket=False, kind="end")


def e_coh(r, modes, w):
    from mrmustard.lab import Coherent

    al = amp(r, w["a"])
    return Op("<coh|", modes, lambda: Coherent(modes[0], alpha=al).dual,
              lambda p: p.project(modes, _mu(al, p.h), p.h / 2 * np.eye(2)),
              lambda s: s.project(modes[0], F.coherent(al, w["N"])), kind="end", par=al)


def e_dsq(r, modes, w):
    from mrmustard.lab import DisplacedSqueezed

    al, R, phi = amp(r, w["a"]), u(r, -w["r"], w["r"]), angle(r)
    S = G.S_sq(R, phi)

    def fk(s):
        big = w["N"] + 8
        return s.project(modes[0], (F.D(al, big) @ F.S(R, phi, big)[:, 0])[: w["N"]])

    return Op("<dsq|", modes, lambda: DisplacedSqueezed(modes[0], alpha=al, r=R, phi=phi).dual,
              lambda p: p.project(modes, _mu(al, p.h), p.h / 2 * S @ S.T), fk, kind="end", par=(al, R, phi))


def e_tmsv(r, modes, w):
    from mrmustard.lab import TwoModeSqueezedVacuum

    modes = sorted(modes)
    R, phi = u(r, -w["r"], w["r"]), angle(r)
    S = G.S_s2(R, phi)
    return Op("<tmsv|", modes, lambda: TwoModeSqueezedVacuum(tuple(modes), r=R, phi=phi).dual,
              lambda p: p.project(modes, np.zeros(4), p.h / 2 * S @ S.T), None, kind="end", par=(R, phi))


def e_num(r, modes, w):
    from mrmustard.lab import Number

    n = int(r.integers(0, 4))
    barg = w.get("number") == "bargmann"

    def make():
        x = Number(modes[0], n, cutoff=w.get("ncut"))
        return (x.to_bargmann() if barg else x).dual

    def fk(s):
        v = np.zeros(w["N"], complex)
        v[n] = 1
        return s.project(modes[0], v)

    return Op("<n|", modes, make, None, fk, kind="end", par=n)


GAUSS = {
    "state": [(st_vacuum, 0), (st_coherent, 1), (st_sqv, 1), (st_dsq, 1), (st_tmsv, 2), (st_thermal, 1), (st_gket, 0),
              (st_gdm, 0)],
    "gate": [(g_d, 1), (g_s, 1), (g_r, 1), (g_p, 1), (g_id, 0), (g_bs, 2), (g_s2, 2), (g_cx, 2), (g_cz, 2), (g_mz, 2),
             (g_int, 0), (g_rint, 0), (g_ggate, 0)],
    "channel": [(c_att, 1), (c_amp, 1), (c_grn, 0), (c_xy, 0)],
    "end": [(e_trace, 0), (e_coh, 1), (e_dsq, 1), (e_tmsv, 2)],
}
FOCK = {
    "state": [(st_vacuum, 0), (st_coherent, 1), (st_sqv, 1), (st_dsq, 1), (st_tmsv, 2), (st_thermal, 1), (st_number, 1),
              (st_number, 1), (st_cat, 1), (st_cat2, 1), (st_sauron, 1)],
    "gate": [(g_d, 1), (g_s, 1), (g_r, 1), (g_p, 1), (g_bs, 2), (g_s2, 2), (g_cx, 2), (g_cz, 2), (g_mz, 2), (g_int, 2),
             (g_rint, 2), (c_damp, 1)],
    "channel": [(c_att, 1), (c_amp, 1), (c_pn, 1)],
    "end": [(e_trace, 0), (e_coh, 1), (e_dsq, 1), (e_num, 1)],
}


def pick(r, cat, kind, avail, w, maxm=3, only=None):
    """a random operation of a kind on some of the available labels (None if impossible)."""
    for _ in range(20):
        f, k = cat[kind][int(r.integers(len(cat[kind])))]
        if only and f not in only:
            continue
        n = k or int(r.integers(1, min(maxm, max(1, len(avail))) + 1))
        if n > len(avail):
            continue
        modes = [int(m) for m in r.choice(avail, size=n, replace=False)]
        if f in (st_vacuum, g_id):
            modes = sorted(modes)
        return f(r, modes, w)
    return None


def program(r, cat, w, nops=6, maxmodes=3, allow_mixed=True, ends=True, p=(0.25, 0.45, 0.15, 0.15), maxtotal=None):
    """random straight-line circuit: list of Op (valid on the evolving set of modes)."""
    labels = [int(x) for x in r.choice(LABELS, size=min(len(LABELS), maxmodes + 2), replace=False)]
    live, ops, mixed = [], [], False
    fresh = list(labels)
    while len(ops) < nops:
        kind = str(r.choice(["state", "gate", "channel", "end"], p=list(p)))
        if not live:
            kind = "state"
        if kind == "state":
            room = maxmodes - len(live)
            if room <= 0 or not fresh:
                if not fresh and not live:
                    break
                kind = "gate"
            else:
                op = pick(r, cat, "state", fresh[:room], w, maxm=room)
                if op is None or (not op.ket and not allow_mixed):
                    continue
                fresh = [m for m in fresh if m not in op.modes]
                live += op.modes
        if kind == "channel" and not allow_mixed:
            kind = "gate"
        if kind == "end" and (not ends or len(live) < 2):
            kind = "gate"
        if kind != "state":
            av = sorted(live) if kind != "end" else sorted(live)
            op = pick(r, cat, kind, av, w, maxm=len(av) - (kind == "end"))
            if op is None or (kind == "end" and len(op.modes) >= len(live)):
                continue
            if not op.ket and not allow_mixed:
                continue
            if kind == "end":
                live = [m for m in live if m not in op.modes]
                if bool(r.integers(2)):
                    fresh += list(op.modes)
        mixed = mixed or not op.ket
        ops.append(op)
    return ops


def is_pure(ops):
    return all(o.ket for o in ops)


def run_ps(ops, h):
    p = G.PS(h)
    for o in ops:
        p = o.ps(p)
    return p


def run_fk(ops):
    s = F.State.empty()
    for o in ops:
        s = o.fk(s)
    return s


def run_mm(ops, combine="rshift"):
    s = None
    for o in ops:
        c = o.make()
        s = c if s is None else s >> c
    return s
