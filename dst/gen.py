"""Workload generators.  All choices come from the sim's dense stream; 0 = simplest."""
from fractions import Fraction
from . import seams
from .seams import quiet_order

CLIFF = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(3, 2)]
TPH = [Fraction(1, 4), Fraction(3, 4), Fraction(5, 4), Fraction(7, 4)]
ODD = [Fraction(1, 8), Fraction(1, 3), Fraction(5, 7), Fraction(13, 8), Fraction(1, 5), Fraction(1, 16)]


def phase(sim, kind='t'):
    """kind: c Clifford, t Clifford+T, a arbitrary."""
    if kind == 'c':
        return sim.pick(CLIFF)
    if kind == 't':
        return sim.pick(CLIFF + TPH)
    return sim.pick(CLIFF + TPH + ODD)


def circuit(sim, qmin=1, qmax=5, gmax=40, kind='t', gates=None, gmin=0):
    """Random circuit as a pyzx Circuit built through its public API."""
    import pyzx as zx
    n = sim.between(qmin, qmax)
    c = zx.Circuit(n)
    k = sim.between(gmin, gmax)
    menu = gates or ['ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'XPhase', 'NOT', 'Z', 'SWAP']
    weights = [1 + sim.choose(4) for _ in menu]
    tbl = [(m, w) for m, w in zip(menu, weights)]
    for _ in range(k):
        m = sim.pickw(tbl)
        add_gate(sim, c, m, n, kind)
    return c


def add_gate(sim, c, m, n, kind):
    q = sim.choose(n)
    if m in ('ZPhase', 'XPhase', 'YPhase'):
        c.add_gate(m, q, phase(sim, kind))
    elif m in ('HAD', 'NOT', 'Z', 'SX', 'Y'):
        c.add_gate(m, q)
    elif m == 'S':
        c.add_gate('S', q, adjoint=sim.flag())
    elif m == 'T':
        if kind == 'c':
            c.add_gate('S', q)
        else:
            c.add_gate('T', q, adjoint=sim.flag())
    elif n >= 2 and m in ('CNOT', 'CZ', 'SWAP', 'XCX', 'CX', 'CHAD', 'CY'):
        t = sim.choose(n - 1)
        t += t >= q
        c.add_gate(m, q, t)
    elif n >= 2 and m in ('CRZ', 'CPhase', 'RZZ'):
        t = sim.choose(n - 1)
        t += t >= q
        c.add_gate(m, q, t, phase(sim, 'c' if kind == 'c' else 't'))
    elif n >= 3 and m in ('CCZ', 'TOF'):
        qs = sim.shuffled(range(n))[:3]
        c.add_gate(m, *qs)
    elif n >= 2 and m == 'ParityPhase':
        qs = sim.shuffled(range(n))[:sim.between(2, n)]
        c.add_gate('ParityPhase', phase(sim, kind), *qs)
    elif m not in ('CNOT', 'CZ', 'SWAP', 'XCX', 'CX', 'CHAD', 'CY', 'CRZ', 'CPhase', 'RZZ', 'CCZ', 'TOF', 'ParityPhase'):
        raise AssertionError(m)


def graph(sim, vmax=10, bmax=5, kind='t', types=('Z', 'X'), hedge=True, backend=None, plain=True, vmin=0):
    """Arbitrary (not circuit-shaped) diagram on the given backend: spiders with random wires and
    boundaries, with gaps in the vertex numbering."""
    import pyzx as zx
    VT, ET = zx.VertexType, zx.EdgeType
    g = zx.Graph(backend) if backend else zx.Graph()
    nv = sim.between(vmin, vmax)
    nb = sim.between(0, bmax)
    tmap = {'Z': VT.Z, 'X': VT.X, 'H': VT.H_BOX, 'ZB': VT.Z_BOX}
    vs = []
    junk = []
    for i in range(nv):
        if sim.flag(0.1):
            junk.append(g.add_vertex(VT.Z))
        t = tmap[sim.pick(list(types))]
        ph = phase(sim, kind)
        if t == VT.H_BOX:
            ph = Fraction(1) if sim.flag(0.6) else ph
        v = g.add_vertex(t, sim.choose(5), 1 + sim.choose(8), ph if t != VT.Z_BOX else None)
        vs.append(v)
    for v in junk:
        g.remove_vertex(v)
    m = 0
    if nv >= 2:
        dens = sim.pick([1, 2, 3])
        m = sim.between(0, min(nv * dens, nv * (nv - 1) // 2))
    seen = set()
    for _ in range(m):
        a, b = sim.choose(nv), sim.choose(nv - 1)
        b += b >= a
        key = (min(a, b), max(a, b))
        if key in seen:
            continue
        seen.add(key)
        et = ET.HADAMARD if hedge and sim.flag(0.5) else ET.SIMPLE
        g.add_edge(g.edge(vs[a], vs[b]) if not backend else (vs[a], vs[b]), et)
    ins, outs = [], []
    open_b = []
    for i in range(nb):
        b = g.add_vertex(VT.BOUNDARY, i, 0 if sim.flag() else 10)
        et = ET.HADAMARD if hedge and sim.flag(0.25) else ET.SIMPLE
        if vs and not (open_b and sim.flag(0.1)):
            g.add_edge((vs[sim.choose(nv)], b), et)
        elif open_b:
            g.add_edge((open_b.pop(), b), et)
        else:
            open_b.append(b)
        (outs if sim.flag() else ins).append(b)
    for b in open_b:
        v = g.add_vertex(VT.Z, 0, 5)
        g.add_edge((v, b))
    g.set_inputs(tuple(sim.shuffled(ins)))
    g.set_outputs(tuple(sim.shuffled(outs)))
    return g


def add_ws(sim, g, wmax=3):
    """Attach W nodes (an input/output vertex pair each) to existing vertices and to each other."""
    import pyzx as zx
    VT, ET = zx.VertexType, zx.EdgeType
    with quiet_order():
        vs = [v for v in sorted(g.vertices()) if g.type(v) != VT.BOUNDARY]
    for _ in range(sim.between(1, wmax)):
        if not vs:
            vs.append(g.add_vertex(VT.Z))
        i = g.add_vertex(VT.W_INPUT, 0, 3)
        o = g.add_vertex(VT.W_OUTPUT, 0, 4)
        g.add_edge((i, o), ET.W_IO)
        g.add_edge((sim.pick(vs), i), sim.pick([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
        legs = sim.shuffled(vs)[:sim.between(1, 3)]
        for w in legs:
            g.add_edge((o, w), sim.pick([ET.SIMPLE, ET.SIMPLE, ET.HADAMARD]))
        vs.append(o)


def odd_phase(sim, kind='t'):
    """A phase that is not Clifford (where the kind has any)."""
    return sim.pick({'c': CLIFF, 't': TPH}.get(kind, TPH + ODD))


def motif(sim, g, kind='t'):
    """Put a pattern that some rewrite rule looks for (or almost) into a diagram, attached to its Z-spiders by Hadamard edges."""
    import pyzx as zx
    VT, ET = zx.VertexType, zx.EdgeType
    H = ET.HADAMARD
    with quiet_order():
        base = [v for v in sorted(g.vertices()) if g.type(v) == VT.Z]
    what = sim.pickw([('twins', 4), ('gadgets', 4), ('pivot', 4), ('lcomp', 3), ('copy', 3), ('pairs', 3), ('bialgebra', 1), ('hopf', 2)])

    def Z(p=0, n=0):
        return g.add_vertex(VT.Z, n, 3 + sim.choose(4), p)

    def some(lo, hi):
        """Z-spiders to attach to, new ones if the diagram has too few."""
        k = sim.between(lo, hi)
        out = sim.shuffled(base)[:k]
        while len(out) < k:
            out.append(Z(phase(sim, kind)))
        return out

    if what == 'twins':
        ns = some(1, 3)
        a = odd_phase(sim, kind)
        b = sim.pick([1 - a, 1 + a, -a, a, odd_phase(sim, kind)]) % 2
        v, w = Z(a), Z(b)
        for n in ns:
            g.add_edge((v, n), H)
            g.add_edge((w, n), H)
        if sim.flag():
            g.add_edge((v, w), H)
        if sim.flag(0.2):
            g.add_edge((v, Z(phase(sim, kind))), H)
        if sim.flag(0.2):
            u = Z(sim.pick([a, -a, 1 + a, 1 - a]) % 2)
            for n in ns:
                g.add_edge((u, n), H)
    elif what == 'gadgets':
        ns = some(1, 4)
        for _ in range(sim.between(1, 3)):
            hub, leaf = Z(sim.pick([0, 0, 1, 0, 1, Fraction(1, 2)])), Z(odd_phase(sim, kind) if sim.flag(0.8) else phase(sim, kind))
            g.add_edge((hub, leaf), H)
            for n in ns if sim.flag(0.85) else sim.shuffled(ns)[:-1]:
                g.add_edge((hub, n), H)
    elif what == 'pivot':
        u = Z(sim.pick([0, 1]))
        v = Z(sim.pick([0, 1]) if sim.flag(0.6) else odd_phase(sim, kind))
        g.add_edge((u, v), H)
        for n in some(1, 4):
            k = sim.choose(3)
            if k != 1:
                g.add_edge((u, n), H)
            if k != 0:
                g.add_edge((v, n), H)
    elif what == 'lcomp':
        u = Z(sim.pick([Fraction(1, 2), Fraction(3, 2)]))
        for n in some(1, 4):
            g.add_edge((u, n), H)
    elif what == 'copy':
        u, v = Z(sim.pick([0, 1])), Z(phase(sim, kind))
        g.add_edge((u, v), H)
        for n in some(1, 3):
            g.add_edge((v, n), H)
    elif what == 'pairs':
        for _ in range(sim.between(1, 2)):
            u = Z(phase(sim, kind))
            if sim.flag(0.8):
                v = Z(sim.pick([g.phase(u), -g.phase(u) % 2, phase(sim, kind), odd_phase(sim, kind)]))
                g.add_edge((u, v), sim.pick([H, ET.SIMPLE]))
                if sim.flag(0.3):
                    g.set_type(v, VT.X)
    elif what == 'bialgebra':
        zs = [Z(sim.pick([0, 0, 1])) for _ in range(sim.between(1, 2))]
        xs = [g.add_vertex(VT.X, 1, 5, sim.pick([0, 0, 1])) for _ in range(sim.between(1, 2))]
        for a in zs:
            for b in xs:
                g.add_edge((a, b), ET.SIMPLE)
        for a in zs + xs:
            g.add_edge((a, some(1, 1)[0]), sim.pick([H, ET.SIMPLE]))
    else:       # two spiders that fuse share Hadamard neighbours
        u, v = Z(phase(sim, kind)), Z(phase(sim, kind))
        g.add_edge((u, v), ET.SIMPLE)
        for n in some(1, 3):
            g.add_edge((u, n), H)
            if sim.flag(0.7):
                g.add_edge((v, n), H)
    return what


def any_diagram(sim, kind='t', qmax=4, gmax=30, vmax=9, backend=None, motif_p=0.3):
    """A diagram: circuit graph (mostly), arbitrary graph, or state/effect/scalar plugged circuit."""
    shape = sim.pickw([('circ', 5), ('plug', 3), ('graph', 3)])
    motifs = 1 + sim.choose(2) if motif_p and sim.flag(motif_p) else 0
    if shape == 'graph':
        g = graph(sim, vmax=vmax - 2 * bool(motifs), kind=kind)
        for _ in range(motifs):
            motif(sim, g, kind)
        return g, 'graph'
    if motifs:
        gmax //= 2
    menu = None
    if sim.flag(0.3):
        menu = ['CNOT', 'T', 'HAD', 'S', 'CZ', 'CCZ', 'ParityPhase', 'ZPhase', 'XCX', 'TOF']
        if kind == 'c':
            menu = ['CNOT', 'HAD', 'S', 'CZ', 'XCX', 'ZPhase']
    c = circuit(sim, 1, qmax, gmax, kind, menu)
    g = c.to_graph(compress_rows=not sim.flag(0.3))
    if shape == 'plug':
        plug(sim, g)
    for _ in range(motifs):
        motif(sim, g, kind)
        shape = 'graph'
    return g, shape


def symbolise(sim, g, p=0.35):
    """Give some spiders symbolic phases.  Returns values of the variables to check the diagram at."""
    from pyzx.symbolic import new_var
    names = ['a', 'b', 'x'][:sim.between(1, 3)]
    for n in names:
        g.variable_types[n] = n in 'ab' and sim.flag(0.7)
    with quiet_order():
        vs = [v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)]
    for v in sim.subset(vs, p):
        e = new_var(sim.pick(names), g.variable_types) * sim.pick([1, 1, 1, -1, 2, Fraction(1, 2)])
        if sim.flag(0.2):
            e = e + new_var(sim.pick(names), g.variable_types) * sim.pick([1, -1])
        if sim.flag(0.5):
            e = e + g.phase(v)
        g.set_phase(v, e)
    out = []
    for _ in range(2):
        out.append({n: (sim.choose(2) if g.variable_types[n] else sim.pick([0.2345, 0.7071, -0.61, 1.13])) for n in names})
    return out


def plug(sim, g):
    n, m = len(g.inputs()), len(g.outputs())
    if sim.flag(0.7):
        g.apply_state(''.join(sim.pick(['0', '1', '+', '-', '/'] ) for _ in range(n)))
    if sim.flag(0.5):
        g.apply_effect(''.join(sim.pick(['0', '1', '+', '-', '/']) for _ in range(m)))


def perturb_history(sim, g):
    """Legitimate history noise: create and remove vertices so that ids have gaps."""
    for _ in range(sim.choose(4)):
        v = g.add_vertex()
        g.remove_vertex(v)


def describe(g, limit=40):
    with quiet_order():
        out = []
        for v in g.vertices():
            out.append('%s:%s(%s)' % (v, int(g.type(v)), g.phase(v)))
            if len(out) >= limit:
                break
        es = []
        for e in g.edges():
            s, t = g.edge_st(e)
            es.append('%s%s%s' % (s, {1: '-', 2: '~', 3: '='}.get(int(g.edge_type(e)), '?'), t))
            if len(es) >= 2 * limit:
                break
        return 'V[%s] E[%s] in%s out%s' % (' '.join(out), ' '.join(es), tuple(g.inputs()), tuple(g.outputs()))


def canon(g):
    """Canonical observable state of a diagram (for equality of structure)."""
    with quiet_order():
        vs = {v: (int(g.type(v)), g.phase(v), g.qubit(v), g.row(v)) for v in g.vertices()}
        es = sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())
        return (vs, es, tuple(g.inputs()), tuple(g.outputs()))


def circ_text(c):
    return '%d qubits: %s' % (c.qubits, ', '.join(str(g) for g in c.gates))
