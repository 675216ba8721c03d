"""P22: measurement patterns on cluster states under every history of outcomes, adaptive angles and corrections."""
from fractions import Fraction
import numpy as np
from .. import gen
from ..seams import quiet_order
from ..semantics import graph_tensor, circuit_unitary, same

ID = 'P22'
QUICK_RUNS = 4000
THOROUGH_RUNS = 200_000
RUN_TIMEOUT = 20
RULE = ('A run builds a cluster state and plays the laboratory: a scheduler draws which qubit is measured next, the basis, the angle and the '
        'random outcome, which Pauli corrections are applied, and misuse (a qubit measured twice, corrected after being measured, or not on '
        'the grid); the diagram is compared up to a scalar with a state-vector model after the session (and, for one-way patterns, with the '
        'computation the pattern stands for, whatever the outcomes were). Non-trivial: at least one qubit was measured.')
REAL = 'mbqc, graph backends, simplify, extract'
STUB = 'the measured system (outcomes drawn by the scheduler, amplitudes from a state-vector model)'
ASSUME = ('angles are numbers; a Z-correction the helper refuses (ValueError) must leave the diagram as it was; qubits are addressed by '
          'their grid position as cluster_state lays them out')


class Model:
    """State vector over the grid qubits, with one extra leg per input."""

    def __init__(self, m, n, inputs):
        k = m * n
        idx = lambda q, r: q * n + r
        t = np.ones((2,) * k, dtype=complex)
        def cz(a, b):
            sl = [slice(None)] * k
            sl[a] = sl[b] = 1
            t[tuple(sl)] *= -1
        for q in range(m):
            for r in range(n):
                if q < m - 1:
                    cz(idx(q, r), idx(q + 1, r))
                if r < n - 1:
                    cz(idx(q, r), idx(q, r + 1))
        # an input at a grid position is copied onto its qubit
        legs = [idx(q, r) for q in range(m) for r in range(n)]
        self.ins = [idx(q, r) for q in range(m) for r in range(n) if (q, r) in inputs]
        for a in self.ins:
            t = np.moveaxis(t, a, 0)
            u = np.zeros((2,) + t.shape, dtype=complex)     # (input, a, rest)
            for b in (0, 1):
                u[b, b] = t[b]
            t = np.moveaxis(u, 1, a + 1)                    # a back in place behind the new leg
            t = np.moveaxis(t, 0, -1)                       # input leg last
        self.t, self.out = t, legs

    def axis(self, i):
        return self.out.index(i)

    def effect(self, i, kind, phase):
        w = np.exp(1j * np.pi * float(phase))
        e = np.array([1, w]) if kind == 'Z' else np.array([1 + w, 1 - w])
        self.t = np.tensordot(self.t, e, axes=(self.axis(i), 0))
        self.out.remove(i)

    def pauli(self, i, kind):
        P = np.array([[1, 0], [0, -1]]) if kind == 'Z' else np.array([[0, 1], [1, 0]])
        a = self.axis(i)
        self.t = np.moveaxis(np.tensordot(P, self.t, axes=(1, a)), 0, a)

    def tensor(self):
        """graph_tensor order: inputs then outputs"""
        k = len(self.out)
        return np.moveaxis(self.t, list(range(k, self.t.ndim)), list(range(self.t.ndim - k)))


def run(sim):
    import pyzx as zx
    sim.swarm()
    if sim.flag(0.35):
        return pattern(sim, zx)
    M = zx.mbqc
    Z, X = zx.VertexType.Z, zx.VertexType.X
    m = sim.between(1, 3)
    n = sim.between(1, {1: 6, 2: 4, 3: 3}[m])
    grid = [(q, r) for q in range(m) for r in range(n)]
    inputs = sim.subset(grid, sim.pick([0, 0.2, 0.4]))[:3]
    g = M.cluster_state(m, n, inputs=inputs)
    mod = Model(m, n, inputs)
    sim.log('cluster %dx%d inputs %s' % (m, n, inputs))
    idx = lambda p: p[0] * n + p[1]
    live = list(grid)
    for _ in range(sim.between(1, 3 * len(grid))):
        op = sim.pickw([('measure', 5), ('pauli', 5), ('misuse', 1), ('rest', 1)])
        if op == 'measure' and live:
            p = sim.pick(live)
            t = sim.pick([Z, X])
            ph = sim.pick([0, 1, Fraction(1, 2), Fraction(1, 4), Fraction(sim.choose(16), 8), 0.5])
            s = sim.choose(2)                   # the random outcome shifts the angle by pi
            a = ph + s
            sim.log('measure %s %s angle %s outcome %d' % (p, 'Z' if t == Z else 'X', ph, s))
            M.measure(g, p, t, a)
            mod.effect(idx(p), 'Z' if t == Z else 'X', a)
            live.remove(p)
            sim.count_fault('outcome 1' if s else 'outcome 0')
            sim.nontrivial = True
        elif op == 'pauli' and live:
            p = sim.pick(live)
            t = sim.pick([Z, X])
            b = sim.pick([1, 1, 0])
            with quiet_order():
                before = gen.canon(g)
            sim.log('correct %s with %s^%d' % (p, 'Z' if t == Z else 'X', b))
            try:
                M.apply_pauli(g, p, t, b)
            except ValueError as e:
                sim.cover('refused correction')
                with quiet_order():
                    if gen.canon(g) != before:
                        sim.fail('refused correction changed the diagram', str(e))
                continue
            if b:
                mod.pauli(idx(p), 'Z' if t == Z else 'X')
        elif op == 'misuse':
            gone = [p for p in grid if p not in live] + [(m, 0), (0, n)]
            p = sim.pick(gone)
            with quiet_order():
                before = gen.canon(g)
            try:
                if sim.flag():
                    M.measure(g, p, sim.pick([Z, X]), sim.pick([0, 1]))
                else:
                    M.apply_pauli(g, p, sim.pick([Z, X]))
            except ValueError:
                pass
            else:
                sim.fail('misuse accepted', 'operation on %s, measured so far %s' % (p, gone))
            sim.count_fault('misuse')
            with quiet_order():
                if gen.canon(g) != before:
                    sim.fail('misuse changed the diagram', str(p))
        elif op == 'rest':
            if sim.flag():
                g = g.copy()
            else:
                gen.perturb_history(sim, g)
        sim.tick()
        with quiet_order():
            if len(g.outputs()) != len(live) or len(g.inputs()) != len(inputs):
                sim.fail('boundary count', '%d outputs for %d unmeasured qubits' % (len(g.outputs()), len(live)))
            d = same(graph_tensor(g), mod.tensor(), True)
        if d:
            sim.fail('wrong state', d + ' ' + gen.describe(g))
    if sim.flag(0.4):
        with quiet_order():
            zero = np.abs(mod.tensor()).max() < 1e-9
        if not zero:
            s = sim.pick(['full_reduce', 'clifford_simp', 'reduce'])
            (zx.simplify.full_reduce if s != 'clifford_simp' else zx.simplify.clifford_simp)(g, quiet=True)
            with quiet_order():
                d = same(graph_tensor(g), mod.tensor(), True)
            if d:
                sim.fail('wrong state', 'after %s: %s' % (s, d), key='wrong state after simplifying')


def pattern(sim, zx):
    """One-way computation: wires along rows of the cluster, adaptive angles, corrections at the end."""
    M = zx.mbqc
    Z, X = zx.VertexType.Z, zx.VertexType.X
    n = sim.between(2, 6)
    g = M.cluster_state(1, n, inputs=[(0, 0)])
    al = [Fraction(sim.choose(16), 8) for _ in range(n - 1)]
    c = zx.Circuit(1)
    sx = sz = 0
    outs = []
    for k in range(n - 1):
        # J(a) = H Z(a): the by-product X^sx Z^sz flips the sign of the angle / adds pi
        a = (-al[k] if sx else al[k]) + sz
        s = sim.choose(2)
        M.measure(g, (0, k), Z, a + s)
        sim.count_fault('outcome %d' % s)
        # by-product after this step: X^s, and the old X turns into Z
        sx, sz = s, sx
        outs.append(s)
        c.add_gate('ZPhase', 0, al[k])
        c.add_gate('HAD', 0)
        sim.tick()
    todo = sim.shuffled([(X, sx), (Z, sz)])
    for t, b in todo:
        M.apply_pauli(g, (0, n - 1), t, b)
    sim.nontrivial = True
    sim.cover('pattern')
    sim.log('pattern angles %s outcomes %s' % (al, outs))
    with quiet_order():
        U = circuit_unitary(c)
        # tensor legs: input, output
        d = same(graph_tensor(g), U.T, True)
    if d:
        sim.fail('pattern is not deterministic', 'angles %s outcomes %s: %s' % (al, outs, d))
    if sim.flag(0.4):
        zx.simplify.full_reduce(g, quiet=True)
        r = zx.extract_circuit(g)
        with quiet_order():
            V = circuit_unitary(r)
            if abs(abs(np.vdot(U, V)) - 2) > 1e-6:
                sim.fail('pattern is not deterministic', 'extracted circuit differs: angles %s outcomes %s' % (al, outs), key='extracted pattern differs')
