"""P19: a verdict 'equal' is never wrong, for any order of matches; Clifford circuits that are equal are recognised."""
from fractions import Fraction
import itertools

import numpy as np

from .. import gen
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_matrix, graph_tensor, same

ID = 'P19'
QUICK_RUNS = 4000
THOROUGH_RUNS = 300_000
RUN_TIMEOUT = 20
RULE = ('A run makes a pair of circuits: one derived from the other by a chain of meaning-preserving operations (own identities, pyzx passes), with 0-2 small '
        'mutations (a gate dropped, added, moved, its phase or qubits changed, wires swapped), and asks verify_equality (also up to swaps, and both ways), '
        'compare_tensors on circuits, diagrams and arrays, is_id and is_unitary on the composite, under an order profile; verdicts are judged by an '
        'independent evaluation. Non-trivial: both circuits have gates.')
REAL = 'Circuit.verify_equality, adjoint, full_reduce, tensorfy, compare_tensors, is_unitary, is_id, the passes used to derive circuits'
ASSUME = ['Numerical equality is up to a relative tolerance of 1e-6; pairs within a factor 1e3 of it are not judged.']

IDENT = [('HAD', 'HAD'), ('NOT', 'NOT'), ('Z', 'Z'), ('S', 'S*'), ('T', 'T*'), ('CZ', 'CZ'), ('CNOT', 'CNOT'), ('SWAP', 'SWAP')]


def own_rewrite(sim, zx, c):
    """A circuit with the same unitary, made with textbook identities only."""
    G = zx.circuit.gates
    gs = list(c.gates)
    n = c.qubits
    for _ in range(sim.between(1, 4)):
        i = sim.choose(len(gs) + 1)
        q = sim.choose(n)
        t = (q + 1 + sim.choose(n - 1)) % n if n > 1 else None
        k = sim.choose(9)
        if k == 0:
            new = [G.HAD(q), G.HAD(q)]
        elif k == 1:
            new = [G.S(q), G.S(q), G.Z(q)]
        elif k == 2:
            new = [G.T(q), G.T(q), G.S(q, adjoint=True)]
        elif k == 3 and t is not None:
            new = [G.CNOT(q, t), G.CNOT(q, t)]
        elif k == 4 and t is not None:
            new = [G.CZ(q, t), G.HAD(t), G.CNOT(q, t), G.HAD(t)]
        elif k == 5 and t is not None:
            new = [G.SWAP(q, t), G.CNOT(q, t), G.CNOT(t, q), G.CNOT(q, t)]
        elif k == 6:
            new = [G.HAD(q), G.Z(q), G.HAD(q), G.NOT(q)]
        elif k == 7:
            p = gen.phase(sim, 't')
            new = [G.ZPhase(q, p), G.ZPhase(q, -p % 2)]
        else:
            new = [G.XPhase(q, Fraction(1, 4)), G.HAD(q), G.ZPhase(q, Fraction(7, 4)), G.HAD(q)]
        gs[i:i] = new
    for _ in range(sim.choose(6)):       # gates on separate qubits commute
        if len(gs) < 2:
            break
        i = sim.choose(len(gs) - 1)
        if not set(qubits(gs[i])) & set(qubits(gs[i + 1])):
            gs[i], gs[i + 1] = gs[i + 1], gs[i]
    return build(zx, n, gs)


def qubits(g):
    return [getattr(g, a) for a in ('target', 'control', 'ctrl1', 'ctrl2') if getattr(g, a, None) is not None]


def build(zx, n, gs):
    d = zx.Circuit(n)
    for g in gs:
        d.add_gate(g.copy())
    return d


def mutate(sim, zx, c, kind):
    G = zx.circuit.gates
    gs = list(c.gates)
    n = c.qubits
    k = sim.choose(7)
    if k == 0 and gs:
        del gs[sim.choose(len(gs))]
    elif k == 1:
        d = zx.Circuit(n)
        gen.add_gate(sim, d, sim.pick(['S', 'HAD', 'NOT', 'Z', 'CZ', 'CNOT', 'SWAP', 'T']), n, kind)
        i = sim.choose(len(gs) + 1)
        gs[i:i] = d.gates
    elif k == 2 and len(gs) > 1:
        i = sim.choose(len(gs) - 1)
        gs[i], gs[i + 1] = gs[i + 1], gs[i]
    elif k == 3:
        q = sim.choose(n)
        i = sim.choose(len(gs) + 1)
        p = Fraction(sim.pick([1, 3, 5, 7]), 4) if kind != 'c' else Fraction(sim.pick([1, 2, 3]), 2)
        if kind == 'a' and sim.flag():
            p = Fraction(1, sim.pick([8, 64, 300]))
        gs.insert(i, G.ZPhase(q, p))
    elif k in (4, 5) and n > 1:
        q = sim.choose(n)
        t = (q + 1 + sim.choose(n - 1)) % n
        i = len(gs) if k == 4 else sim.choose(len(gs) + 1)
        gs.insert(i, G.SWAP(q, t))
    elif k == 6 and n > 1:
        pm = sim.shuffled(range(n))
        m = list(pm)
        d = zx.Circuit(n)
        for g in gs:
            d.add_gate(g.reposition(m))
        return d
    return build(zx, n, gs)


def passes(sim, zx, c):
    w = sim.pick(['own', 'own', 'basic', 'peephole', 'extract', 'teleport', 'tograph', 'todd'])
    sim.cover('derived:' + w)
    if w == 'own':
        return own_rewrite(sim, zx, c)
    if w == 'peephole':
        b = c.to_basic_gates()
        try:
            return zx.optimize.basic_optimization(b)
        except TypeError:
            return b    # gates it does not know
    if w == 'extract':
        g = c.to_graph()
        zx.full_reduce(g)
        return zx.extract_circuit(g)
    if w == 'teleport':
        return zx.Circuit.from_graph(zx.teleport_reduce(c.to_graph()))
    if w == 'tograph':
        return zx.Circuit.from_graph(c.to_graph())
    if w == 'todd' and c.qubits <= 4:
        b = c.to_basic_gates()
        if all(g.name in ('CNOT', 'CZ', 'HAD', 'SWAP', 'NOT', 'Z', 'S', 'T') for g in b.gates):
            b = zx.Circuit.from_graph(b.to_graph()) if any(g.name == 'SWAP' for g in b.gates) else b
            try:
                return zx.phase_block_optimize(b)
            except TypeError:
                return b    # gates it does not know
    return c.to_basic_gates()


def close(U, V):
    """1: equal up to phase, 0: clearly different, None: too near to judge."""
    if U.shape != V.shape:
        return 0
    f = abs(np.vdot(U, V)) / (np.linalg.norm(U) * np.linalg.norm(V))
    r = 1 - f
    return 1 if r < 1e-9 else 0 if r > 1e-7 else None


def perms(U, n):
    T = U.reshape([2] * n + [2 ** n])
    for p in itertools.permutations(range(n)):
        yield np.transpose(T, list(p) + [n]).reshape(U.shape)


def pair(sim, zx):
    kind = sim.pickw([('c', 4), ('t', 4), ('a', 2)])
    menu = sim.pick([None, ['CNOT', 'HAD', 'S', 'T', 'CZ'], ['CNOT', 'T', 'SWAP'], ['CZ', 'HAD', 'S', 'NOT', 'SX'], ['CNOT', 'HAD', 'ZPhase', 'XPhase', 'YPhase'],
                     ['CNOT', 'CY', 'SX', 'S', 'HAD', 'XCX'], ['TOF', 'CCZ', 'HAD', 'CRZ', 'CHAD', 'CNOT']])
    if kind == 'c' and menu:
        menu = [m for m in menu if m not in ('T', 'TOF', 'CCZ', 'CRZ', 'CHAD')]
    with quiet_order():
        c = gen.circuit(sim, 1, 4, sim.pick([4, 12, 25]), kind, menu)
        d = c
        for _ in range(sim.choose(3)):
            d = passes(sim, zx, d)
        for _ in range(sim.pickw([(0, 4), (1, 4), (2, 1)])):
            d = mutate(sim, zx, d, kind)
            if sim.flag(0.3):
                d = own_rewrite(sim, zx, d)
        if sim.flag(0.03):
            d = gen.circuit(sim, 1, 4, 6, kind, menu)
    return kind, c, d


def run(sim):
    import pyzx as zx
    sim.swarm()
    kind, c, d = pair(sim, zx)
    if sim.flag(0.5):
        c, d = d, c
    with quiet_order():
        U, V = circuit_unitary(c), circuit_unitary(d)
        truth = close(U, V)
        n = c.qubits
        upto = truth
        if truth == 0 and U.shape == V.shape:
            ks = [close(W, V) for W in perms(U, n)]
            upto = 1 if 1 in ks else None if None in ks else 0
    sim.log('%s | %s' % (gen.circ_text(c)[:300], gen.circ_text(d)[:300]))
    sim.log('truth %s, up to swaps %s' % (truth, upto))
    sim.cover('truth %s %s' % (truth, upto))
    sim.nontrivial = bool(c.gates and d.gates)
    texts = gen.circ_text(c), gen.circ_text(d)
    for _ in range(sim.between(1, 3)):
        what = sim.pickw([('verify', 5), ('verify swaps', 4), ('tensors', 4), ('composite', 2), ('plugged', 2)])
        sim.cover(what)
        sim.tick()
        if what.startswith('verify'):
            sw = what == 'verify swaps'
            if c.qubits != d.qubits:
                try:
                    r = c.verify_equality(d, up_to_swaps=sw)
                except TypeError:
                    continue
            else:
                r = c.verify_equality(d, up_to_swaps=sw)
            t = upto if sw else truth
            judge(sim, 'verify_equality%s' % (' up to swaps' if sw else ''), r, t, kind == 'c', texts)
        elif what == 'tensors':
            f = [lambda x: x, lambda x: x.to_graph(), lambda x: x.to_tensor(), lambda x: x.to_graph().to_tensor(), lambda x: x.to_graph().to_tensor(False)]
            a, b = sim.pick(f)(c), sim.pick(f)(d)
            if sim.flag(0.3) and isinstance(b, np.ndarray):
                b = b * sim.pick([1j, 1e-6, 1e5, 1e-10, -0.3])
            r = zx.compare_tensors(a, b)
            judge(sim, 'compare_tensors', r, truth, True, texts)
        elif what == 'composite' and c.qubits == d.qubits:
            with quiet_order():
                g = c.adjoint().to_graph()
                g.compose(d.to_graph())
            zx.full_reduce(g)
            with quiet_order():
                M = graph_matrix(g)
            e = np.eye(len(M))
            r = g.is_id()
            judge(sim, 'is_id', r, close(M, e), False, texts + (gen.describe(g),))
            if c.qubits <= 3 and g.num_vertices() <= 14:
                r = zx.tensor.is_unitary(g)
                judge(sim, 'is_unitary', r, 1, True, texts + (gen.describe(g),))
        elif what == 'plugged':
            plugged(sim, zx, c, d)


def judge(sim, what, r, truth, complete, texts):
    if truth is None:
        return
    if r and truth == 0:
        sim.fail('wrong verdict', '%s says equal:\n%s' % (what, '\n'.join(texts)), key='%s wrongly says equal' % what)
    if not r and truth == 1 and complete:
        sim.fail('wrong verdict', '%s says different:\n%s' % (what, '\n'.join(texts)), key='%s misses equality' % what)


def sorted_rows(g):
    return all(abs(g.row(s) - g.row(t)) <= 1 for s, t in (g.edge_st(e) for e in g.edges()))


def plugged(sim, zx, c, d):
    """Diagrams that are not unitary: any shape, with or without their scalars."""
    with quiet_order():
        g, h = c.to_graph(), d.to_graph()
        if sim.flag(0.8):
            gen.plug(sim, g)
        h = g.copy() if sim.flag(0.5) else h
        if sim.flag(0.4):
            gen.plug(sim, h)
        if sim.flag(0.3):
            for x in (g, h):
                x.scalar.add_power(sim.pick([-60, -20, 20, 2, 0]))
    if sim.flag(0.4):
        zx.simplify.full_reduce(h)
    if max(g.num_vertices(), h.num_vertices()) > 60 or any(h.vertex_degree(v) > 9 for v in h.vertices()) or (not sorted_rows(h) and h.num_vertices() > 14):
        return          # tensorfy may need too much memory
    if sim.flag(0.3):
        h = h.copy(backend='simple')
    with quiet_order():
        A, B = graph_tensor(g), graph_tensor(h)
    ps = sim.flag()
    na, nb = np.abs(A).max(), np.abs(B).max()
    sim.log('%s %s %.3g %.3g' % (A.shape, B.shape, na, nb))
    if A.shape == B.shape and (na < 1e-9 or nb < 1e-9) and not (na > 1e-12 and nb > 1e-12):
        return      # zero diagrams
    try:
        r = zx.compare_tensors(g, h, preserve_scalar=ps)
    except ValueError as e:
        if 'close to zero' in str(e) or "axes don't match" in str(e):
            return      # zero diagrams; open ends beyond the outermost rows (a documented limitation of tensorfy)
        raise
    if A.shape != B.shape:
        t = 0
    elif ps:
        e = np.abs(A - B).max() / max(na, nb)
        t = 1 if e < 1e-9 else 0 if e > 1e-3 else None
    else:
        t = close(A, B)
    judge(sim, 'compare_tensors%s' % (' with scalars' if ps else ''), r, t, True, (gen.describe(g), gen.describe(h)))
    sim.nontrivial = True
