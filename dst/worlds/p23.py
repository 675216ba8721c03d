"""P23: random circuit and diagram generators deliver what was asked for, whatever is drawn."""
from fractions import Fraction

import numpy as np

from .. import gen
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_matrix, graph_tensor, same

ID = 'P23'
QUICK_RUNS = 5000
THOROUGH_RUNS = 250_000
RULE = ('A run makes 1-4 requests to the random generators (CNOT circuits, Clifford, Clifford+T and measured diagrams with drawn probabilities, CNOT-Hadamard-phase '
        'circuits, phase polynomials of three kinds, random parity maps, identities, the families of circuit identities), with parameters at their '
        'extremes and adversarial draws (0, the largest number below 1, the ends of ranges), and checks each result against the request: size, boundaries in order, '
        'only the gates asked for, a map of the promised kind (identity, linear, diagonal, Clifford, unitary), the tracked matrix; earlier results must '
        'not change. Non-trivial: something random was drawn.')
REAL = 'generate, circuit, routing.parity_maps, routing.phase_poly, graph backends'
STUB = 'random and numpy.random streams'
ASSUME = 'probabilities are exact binary fractions (others are subject to rounding in the last bit); two-qubit gates are only asked for on two or more qubits'


def split(sim, k):
    """k probabilities in steps of 1/8 that add up to at most 1"""
    left, out = 8, []
    for _ in range(k):
        x = sim.pick([0, 0, left, sim.choose(left + 1)])
        out.append(x / 8)
        left -= x
    return out


def well_formed(sim, zx, g, n, what):
    VT = zx.VertexType
    ins, outs = list(g.inputs()), list(g.outputs())
    if len(ins) != n or len(outs) != n:
        sim.fail('wrong number of wires', '%s: %s inputs, %s outputs' % (what, len(ins), len(outs)))
    if len(set(ins) | set(outs)) != 2 * n:
        sim.fail('wrong number of wires', '%s: inputs %s outputs %s' % (what, ins, outs))
    for v in g.vertices():
        if g.type(v) == VT.BOUNDARY:
            if v not in ins and v not in outs:
                sim.fail('malformed', '%s: boundary %s is neither input nor output' % (what, v))
            if g.vertex_degree(v) != 1:
                sim.fail('malformed', '%s: boundary %s of degree %d' % (what, v, g.vertex_degree(v)))
        elif g.type(v) not in (VT.Z, VT.X):
            sim.fail('malformed', '%s: vertex of type %s' % (what, g.type(v)))
    for i, (a, b) in enumerate(zip(ins, outs)):
        if g.qubit(a) != i or g.qubit(b) != i:
            sim.fail('wires out of order', '%s: input %d on line %s, output %d on line %s' % (what, i, g.qubit(a), i, g.qubit(b)))


def is_unitary(U, scale=False):
    P = U @ U.conj().T
    k = P[0, 0].real if scale else 1
    return k > 1e-12 and abs(P / k - np.eye(len(U))).max() < 1e-6


def linear(U):
    """The bit matrix of a permutation matrix that is linear in the bits, or None."""
    N = len(U)
    n = N.bit_length() - 1
    cols = [int(np.argmax(abs(U[:, j]))) for j in range(N)]
    if any(abs(U[cols[j], j] - 1) > 1e-6 or (abs(U[:, j]) > 1e-6).sum() != 1 for j in range(N)):
        return None
    for j in range(N):
        x = 0
        for b in range(n):
            if j >> b & 1:
                x ^= cols[1 << b]
        if x != cols[j]:
            return None
    return [[cols[1 << (n - 1 - j)] >> (n - 1 - i) & 1 for j in range(n)] for i in range(n)]


def clifford(U):
    """Does U map every Pauli X_i, Z_i to a Pauli (up to sign)?"""
    N = len(U)
    n = N.bit_length() - 1
    for q in range(n):
        for P in (np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]])):
            M = np.eye(1)
            for i in range(n):
                M = np.kron(M, P if i == q else np.eye(2))
            R = U @ M @ U.conj().T
            # a Pauli has one entry of modulus 1 per row, at a constant offset, with a multiplicative sign
            x = int(np.argmax(abs(R[0])))
            d = [R[i, i ^ x] for i in range(N)]
            if any(abs(abs(z) - 1) > 1e-6 for z in d):
                return False
            for i in range(N):
                w = d[0]
                for b in range(n):
                    if i >> b & 1:
                        w = w * d[1 << b] / d[0]
                if abs(w - d[i]) > 1e-6:
                    return False
    return True


def gf2(c, n):
    m = [[int(i == j) for j in range(n)] for i in range(n)]
    for g in c.gates:
        if g.name == 'CNOT':
            m[g.target] = [a ^ b for a, b in zip(m[g.target], m[g.control])]
    return m


def names(c):
    return {g.name for g in c.gates}


def request(sim, zx):
    G = zx.generate
    what = sim.pick(['cnots', 'cliffords', 'cliffordT', 'cliffordTmeas', 'CNOT_HAD_PHASE', 'phase_poly', 'phase_poly_approximate', 'from_gadgets', 'parity_map',
                     'identity', 'families'])
    n = sim.pickw([(1, 1), (2, 3), (3, 4), (4, 2)])
    d = sim.pickw([(0, 1), (1, 1), (sim.between(2, 8), 4), (sim.between(9, 25), 2)])
    back = sim.pickw([(None, 4), ('simple', 1), ('multigraph', 1)])
    if what == 'cnots':
        n = max(n, 2)
        sim.log('cnots(%d, %d)' % (n, d))
        g = G.cnots(n, d, back)
        with quiet_order():
            well_formed(sim, zx, g, n, 'cnots(%d,%d)' % (n, d))
            U = graph_matrix(g)
            if linear(U) is None:
                sim.fail('not a CNOT circuit', 'cnots(%d,%d): the map is not linear' % (n, d))
            if d == 0 and same(U, np.eye(2 ** n)):
                sim.fail('not what was asked', 'cnots(%d,0) is not the identity' % n)
            if d == 1:
                M = linear(U)
                if sum(map(sum, M)) != n + 1 or any(not M[i][i] for i in range(n)):
                    sim.fail('not what was asked', 'cnots(%d,1) is not one CNOT: %s' % (n, M))
        # the same as a circuit
        c = zx.Circuit.from_graph(g)
        with quiet_order():
            if names(c) - {'CNOT'} or len(c.gates) != d:
                sim.fail('not what was asked', 'cnots(%d,%d): gates %s' % (n, d, gen.circ_text(c)))
            if same(circuit_unitary(c), U, True):
                sim.fail('not what was asked', 'the diagram and its circuit differ')
        return g
    if what == 'cliffords':
        n = max(n, 2)
        noh, t = sim.flag(0.4), sim.flag(0.4)
        sim.log('cliffords(%d, %d, %s, %s)' % (n, d, noh, t))
        g = G.cliffords(n, d, noh, t, back)
        with quiet_order():
            well_formed(sim, zx, g, n, 'cliffords')
            if noh and any(g.edge_type(e) == zx.EdgeType.HADAMARD for e in g.edges()):
                sim.fail('not what was asked', 'Hadamard edge in cliffords(no_hadamard=True)')
            if not t and any((2 * g.phase(v)) % 1 for v in g.vertices()):
                sim.fail('not what was asked', 'a phase that is not Clifford')
            U = graph_matrix(g)
            if not is_unitary(U, True):
                sim.fail('not unitary', 'cliffords(%d,%d)' % (n, d))
            if not t and n <= 3 and not clifford(U / np.sqrt((U @ U.conj().T)[0, 0].real)):
                sim.fail('not what was asked', 'cliffords(%d,%d) is not Clifford' % (n, d))
        return g
    if what in ('cliffordT', 'cliffordTmeas'):
        meas = what == 'cliffordTmeas'
        keys = ['p_t', 'p_s', 'p_hsh', 'p_cnot'] + (['p_meas'] if meas else [])
        p = dict(zip(keys, split(sim, len(keys))))
        rest = 1 - sum(p.values())
        if rest:
            free = sim.pick(keys)
            p[free] = None if sim.flag(0.7) else p[free] + rest
        elif sim.flag(0.3):
            for k in keys:
                if p[k] == 0 and sim.flag():
                    p[k] = None
        if n == 1 and (p['p_cnot'] is None or p['p_cnot'] > 0):
            n = 2
        given = [x for x in p.values() if x is not None]
        num = len(keys) - len(given)
        prob = {k: (x if x is not None else (1 - sum(given)) / num) for k, x in p.items()}
        sim.log('%s(%d, %d, %s)' % (what, n, d, p))
        g = getattr(G, what)(n, d, backend=back, **p)
        with quiet_order():
            well_formed(sim, zx, g, n, what)
            grounds = g.grounds()
            quarter = [v for v in g.vertices() if g.phase(v) % Fraction(1, 2)]
            hsh = [v for v in g.vertices() if g.type(v) == zx.VertexType.X and g.phase(v)]
            ess = [v for v in g.vertices() if g.type(v) == zx.VertexType.Z and g.phase(v) == Fraction(1, 2)]
            cx = [v for v in g.vertices() if g.type(v) == zx.VertexType.X and not g.phase(v)]
            got = dict(p_t=len(quarter), p_s=len(ess), p_hsh=len(hsh), p_cnot=len(cx), p_meas=len(grounds))
            if sum(got.values()) != d:
                sim.fail('not what was asked', '%s(%d,%d,%s): %s' % (what, n, d, p, got))
            for k, v in got.items():
                if v and not prob.get(k):
                    sim.fail('probability zero', '%s(%d,%d,%s) made %d' % (what, n, d, p, v), key='probability zero ' + k)
            if not grounds:
                U = graph_matrix(g)
                if not is_unitary(U):
                    sim.fail('not unitary', '%s(%d,%d,%s)' % (what, n, d, p))
                if not quarter and n <= 3 and not clifford(U):
                    sim.fail('not what was asked', 'not Clifford')
                if not hsh and not (cx and (quarter or ess)) and (cx and linear(U) is None or not cx and abs(U - np.diag(np.diag(U))).max() > 1e-6):
                    sim.fail('not what was asked', 'neither linear nor diagonal')
        return g
    if what == 'CNOT_HAD_PHASE':
        a, b = split(sim, 2)
        if n == 1 and a + b < 1:
            n = 2
        cl = sim.flag(0.4)
        sim.log('CNOT_HAD_PHASE_circuit(%d, %d, %s, %s, %s)' % (n, d, a, b, cl))
        c = G.CNOT_HAD_PHASE_circuit(n, d, a, b, clifford=cl)
        ph = 'S' if cl else 'T'
        have = {k: sum(g.name == k for g in c.gates) for k in ('HAD', ph, 'CNOT')}
        if c.qubits != n or len(c.gates) != d or sum(have.values()) != d:
            sim.fail('not what was asked', '%s gates on %s qubits: %s' % (len(c.gates), c.qubits, gen.circ_text(c)))
        for k, q in (('HAD', a), (ph, b), ('CNOT', 1 - a - b)):
            if have[k] and not q:
                sim.fail('probability zero', '%d %s gates with p_had=%s p_t=%s' % (have[k], k, a, b), key='probability zero ' + k)
            if q == 1 and have[k] != d:
                sim.fail('probability one', '%d of %d gates are %s' % (have[k], d, k))
        valid(sim, c, n)
        if cl and n <= 3 and d and not clifford(circuit_unitary(c)):
            sim.fail('not what was asked', 'not Clifford')
        return c
    if what in ('phase_poly', 'phase_poly_approximate', 'from_gadgets'):
        n = max(n, 2)
        if what == 'phase_poly':
            layers = sim.between(0, 3)
            d = min(d, 8)
            sim.log('phase_poly(%d, %d, %d)' % (n, layers, d))
            c = G.phase_poly(n, layers, d)
            want = dict(CNOT=layers * d, ZPhase=layers * n)
        elif what == 'phase_poly_approximate':
            k = sim.between(0, 10)
            if not d + k:
                k = 1
            sim.log('phase_poly_approximate(%d, %d, %d)' % (n, d, k))
            c = G.phase_poly_approximate(n, d, k)
            want = dict(CNOT=d)
            if not k:
                want['ZPhase'] = 0
        else:
            k = sim.between(0, 2 ** n + 2)
            sim.log('phase_poly_from_gadgets(%d, %d)' % (n, k))
            c = G.phase_poly_from_gadgets(n, k)
            want = dict(phases=min(k, 2 ** n - 1))
        valid(sim, c, n)
        if c.qubits != n:
            sim.fail('not what was asked', '%s qubits' % c.qubits)
        have = {k: sum(g.name == k for g in c.gates) for k in ('CNOT', 'ZPhase')}
        have['phases'] = sum(g.name in ('ZPhase', 'T', 'S', 'Z') for g in c.gates)
        if have['phases'] + have['CNOT'] != len(c.gates):
            sim.fail('not what was asked', '%s: gates %s' % (what, sorted(names(c))))
        for k2, v in want.items():
            if have[k2] != v:
                sim.fail('not what was asked', '%s: %d %s, not %d\n%s' % (what, have[k2], k2, v, gen.circ_text(c)))
        m = getattr(c, 'matrix', None)
        if m is not None and m.data != gf2(c, n):
            sim.fail('tracked matrix', '%s: %s is %s' % (what, m.data, gf2(c, n)))
        if what == 'from_gadgets':
            if gf2(c, n) != [[int(i == j) for j in range(n)] for i in range(n)]:
                sim.fail('not what was asked', 'the CNOTs do not cancel: %s' % gen.circ_text(c))
            # each gadget is a phase of pi/4 on its own parity
            row = [[int(i == j) for j in range(n)] for i in range(n)]
            seen = {}
            for g in c.gates:
                if g.name == 'CNOT':
                    row[g.target] = [x ^ y for x, y in zip(row[g.target], row[g.control])]
                else:
                    seen[tuple(row[g.target])] = seen.get(tuple(row[g.target]), 0) + g.phase
            if len(seen) != want['phases'] or any(x != Fraction(1, 4) for x in seen.values()):
                sim.fail('not what was asked', 'gadgets %s' % seen)
        return c
    if what == 'parity_map':
        from pyzx.generate import build_random_parity_map
        from pyzx.routing.parity_maps import CNOT_tracker
        n = max(n, 2)
        d = min(d, 12)
        cs = [CNOT_tracker(n) for _ in range(sim.between(0, 2))]
        sim.log('build_random_parity_map(%d, %d, %d circuits)' % (n, d, len(cs)))
        arg = None if not cs else cs if len(cs) > 1 or sim.flag() else cs[0]
        m = build_random_parity_map(n, d, circuit=arg) if arg is not None else build_random_parity_map(n, d)
        m = [[int(x) for x in r] for r in m]
        for c in cs:
            if len(c.gates) != d or gf2(c, n) != m or c.matrix.data != m:
                sim.fail('tracked matrix', 'map %s, circuit gives %s, tracked %s' % (m, gf2(c, n), c.matrix.data))
        if len(linear_rank(m)) != n:
            sim.fail('not what was asked', 'the map is singular')
        return cs[0] if cs else None
    if what == 'identity':
        g = G.identity(n, sim.pick([1, 2, 0.5, d + 1]), back)
        with quiet_order():
            well_formed(sim, zx, g, n, 'identity')
            if same(graph_matrix(g), np.eye(2 ** n)):
                sim.fail('not what was asked', 'identity(%d) is not the identity' % n)
        return g
    # families of circuits equal to the identity
    k = sim.choose(4)
    c = [lambda: G.circuit_identity_phasepoly(), lambda: G.circuit_identity_two_qubit1(), lambda: G.circuit_identity_two_qubit2(),
         lambda: G.circuit_identity_commuting_controls(Fraction(sim.choose(16), 8), Fraction(sim.choose(24), 12))][k]()
    if same(circuit_unitary(c), np.eye(2 ** c.qubits), True):
        sim.fail('not what was asked', 'identity family %d is not the identity' % k)
    return c


def linear_rank(m):
    rows = [int(''.join(map(str, r)), 2) for r in m]
    out = []
    for r in rows:
        for o in out:
            r = min(r, r ^ o)
        if r:
            out.append(r)
    return out


def valid(sim, c, n):
    for g in c.gates:
        qs = [getattr(g, k) for k in ('control', 'target') if hasattr(g, k)]
        if any(not 0 <= q < n for q in qs) or len(set(map(int, qs))) != len(qs):
            sim.fail('malformed', 'gate %s on %d qubits' % (g, n))


def mark(x):
    if x is None:
        return None
    return gen.circ_text(x) if hasattr(x, 'gates') else gen.canon(x)


def run(sim):
    import pyzx as zx
    sim.swarm()
    made = []
    for _ in range(sim.between(1, 4)):
        x = request(sim, zx)
        sim.nontrivial = True
        with quiet_order():
            for y, m in made:
                if mark(y) != m:
                    sim.fail('an earlier result changed', str(m)[:300])
            made.append((x, mark(x)))
        sim.tick()
