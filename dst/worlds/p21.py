"""P21: generalised-flow analysis is sound, complete and independent of the order vertices are considered in; flow means extraction works."""
from .. import gen
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_matrix, same

ID = 'P21'
QUICK_RUNS = 7000
THOROUGH_RUNS = 300_000
RUN_TIMEOUT = 20
RULE = ('A run makes a graph-like diagram (random open graph, or a circuit simplified by a random sequence of flow-preserving strategies, possibly with one edge '
        'toggled, a spider added or qubits plugged), and asks for its generalised flow several times under an order profile, interleaved with renumbering copies. Each '
        'answer is checked against the defining conditions and against an independent maximally delayed solution; a diagram with a flow is then extracted and the '
        'circuit compared. Non-trivial: a measured spider needs a correction set of at least two, or there is no flow.')
REAL = 'gflow.gflow, Mat2.solve, bi_adj, simplify, extract_circuit'
ASSUME = ['Diagrams are graph-like with all spiders measured in the XY plane, which is what gflow is documented for.']

STRATS = ['interior_clifford_simp', 'clifford_simp', 'spider_simp', 'id_simp', 'lcomp_simp', 'pivot_simp', 'pivot_boundary_simp']


def solve(A, b, cols):
    """A: list of int row masks, b: list of bits.  Returns a solution mask or None."""
    rows = [(A[i] << 1) | b[i] for i in range(len(A))]
    piv = []
    r = 0
    for c in range(cols, 0, -1):
        p = next((i for i in range(r, len(rows)) if rows[i] >> c & 1), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(len(rows)):
            if i != r and rows[i] >> c & 1:
                rows[i] ^= rows[r]
        piv.append(c)
        r += 1
    if any(rows[i] == 1 for i in range(len(rows))):
        return None
    x = 0
    for i, c in enumerate(piv):
        if rows[i] & 1:
            x |= 1 << (c - 1)
    return x


def facts(zx, g):
    adj = {v: set(g.neighbors(v)) for v in g.vertices()}
    ins, outs = set(g.inputs()), set(g.outputs())
    first = set()
    for i in ins:
        first |= adj[i]
    measured = set(adj) - outs - ins
    return adj, ins, outs, first, measured


def reference(adj, ins, outs, first, measured):
    """Layers of the maximally delayed flow (unique), or None."""
    done = set(outs)
    layer = {v: 0 for v in outs}
    k = 1
    while True:
        corr = sorted(done - first - ins)
        todo = sorted(measured - done)
        A = [sum(1 << j for j, w in enumerate(corr) if w in adj[v]) for v in todo]
        new = [v for i, v in enumerate(todo) if solve(A, [int(j == i) for j in range(len(todo))], len(corr)) is not None]
        if not new:
            return (layer, k) if not todo else None
        for v in new:
            layer[v] = k
        done.update(new)
        k += 1


def open_graph(sim, zx):
    """Random graph-like diagram with as many inputs as outputs (mostly)."""
    VT, ET = zx.VertexType, zx.EdgeType
    g = zx.Graph()
    ni = sim.between(1, 4)
    no = ni if sim.flag(0.8) else sim.between(0, 4)
    m = sim.between(max(ni, no, 1), max(ni, no, 1) + sim.pick([1, 3, 6, 9]))
    zs = [g.add_vertex(VT.Z, sim.choose(5), 1 + sim.choose(6), gen.phase(sim, sim.pick(['t', 'c']))) for _ in range(m)]
    dens = sim.pick([0.15, 0.3, 0.5, 0.8])
    local = sim.flag(0.5)
    for i in range(m):
        for j in range(i):
            if (not local or i - j <= 3) and sim.flag(dens):
                g.add_edge((zs[j], zs[i]), ET.HADAMARD)
    ins, outs = [], []
    a, b = sim.shuffled(zs), sim.shuffled(zs)
    if local:
        a, b = zs[:], zs[::-1]
    for q in range(ni):
        v = g.add_vertex(VT.BOUNDARY, q, 0)
        g.add_edge((v, a[q]), sim.pick([ET.SIMPLE, ET.HADAMARD]))
        ins.append(v)
    for q in range(no):
        v = g.add_vertex(VT.BOUNDARY, q, 8)
        g.add_edge((v, b[q]), sim.pick([ET.SIMPLE, ET.HADAMARD]))
        outs.append(v)
    g.set_inputs(tuple(ins))
    g.set_outputs(tuple(outs))
    return g


def from_circuit(sim, zx):
    kind = sim.pickw([('t', 4), ('c', 2), ('a', 1)])
    menu = sim.pick([None, ['CNOT', 'HAD', 'T'], ['CZ', 'HAD', 'ZPhase'], ['CNOT', 'CZ', 'HAD', 'S', 'T', 'SWAP']])
    if kind == 'c' and menu:
        menu = [x for x in menu if x != 'T']
    with quiet_order():
        c = gen.circuit(sim, 1, 5, sim.pick([8, 25, 50]), kind, menu, gmin=1)
        g = c.to_graph()
    gen.perturb_history(sim, g)
    s = zx.simplify
    s.to_gh(g)
    s.spider_simp(g, quiet=True)
    intact = True
    for _ in range(sim.choose(4)):
        n = sim.pick(STRATS)
        sim.log(n)
        intact &= n not in ('pivot_boundary_simp', 'clifford_simp')     # these turn spiders into phase gadgets
        getattr(s, n)(g, quiet=True)
        if sim.flag(0.4):
            s.id_simp(g, quiet=True)
            s.spider_simp(g, quiet=True)
    return c, g, intact


def run(sim):
    import pyzx as zx
    VT, ET = zx.VertexType, zx.EdgeType
    sim.swarm()
    c = None
    intact = False
    if sim.flag(0.5):
        c, g, intact = from_circuit(sim, zx)
        if sim.flag(0.4):
            c, intact = None, False
            with quiet_order():
                for _ in range(sim.between(1, 2)):
                    zs = [v for v in sorted(g.vertices()) if g.type(v) == VT.Z]
                    k = sim.choose(3)
                    if k == 0 and len(zs) > 1:
                        a, b = sim.shuffled(zs)[:2]
                        if g.connected(a, b):
                            if g.edge_type(g.edge(a, b)) == ET.HADAMARD:
                                g.remove_edge(g.edge(a, b))
                        else:
                            g.add_edge((a, b), ET.HADAMARD)
                    elif k == 1 and zs:
                        v = g.add_vertex(VT.Z, 0, 0, gen.phase(sim, 't'))
                        for w in sim.shuffled(zs)[:sim.between(1, 3)]:
                            g.add_edge((v, w), ET.HADAMARD)
                    elif k == 2:
                        gen.plug(sim, g)
                        zx.simplify.to_gh(g)
                        zx.simplify.spider_simp(g, quiet=True)
    else:
        with quiet_order():
            g = open_graph(sim, zx)
    with quiet_order():
        if any(g.type(v) not in (VT.BOUNDARY, VT.Z) for v in g.vertices()):
            return
        if any(g.type(w) == VT.BOUNDARY for i in list(g.inputs()) + list(g.outputs()) for w in g.neighbors(i)):
            sim.cover('bare wire')
            bare = True
        else:
            bare = False
        if any(g.edge_type(e) == ET.SIMPLE and all(g.type(v) == VT.Z for v in g.edge_st(e)) for e in g.edges()):
            return      # not graph-like
        want = reference(*facts(zx, g))
    sim.log(gen.describe(g, 20))
    if bare:
        # an input joined straight to an output carries no spider to be measured
        want = 'bare'
    verdicts = []
    h = g
    for _ in range(sim.between(1, 3)):
        if sim.flag(0.4):
            h = h.copy()
        with quiet_order():
            before = gen.canon(h)
            ref = want if want == 'bare' else reference(*facts(zx, h))
        r = zx.gflow.gflow(h)
        sim.tick()
        with quiet_order():
            if gen.canon(h) != before:
                sim.fail('argument modified', 'gflow changed the diagram')
            check(sim, zx, h, r, ref)
        verdicts.append(r is not None)
    if len(set(verdicts)) > 1:
        sim.fail('verdict depends on order', 'gflow found %s on renumbered copies of %s' % (verdicts, gen.describe(g)))
    sim.cover('flow' if verdicts[0] else 'no flow')
    if not verdicts[0]:
        sim.nontrivial = True
        if intact:
            sim.fail('no flow', 'a circuit simplified by flow-preserving strategies has no flow: %s' % gen.describe(g), key='no flow after flow-preserving strategies')
    if verdicts[0] and 0 < len(g.inputs()) == len(g.outputs()) and g.num_vertices() < 60:
        with quiet_order():
            M = circuit_unitary(c) if c is not None else graph_matrix(g)
        if abs(M).max() < 1e-9:
            return      # the plugged states and edited spiders have already cancelled each other in the scalar
        how = sim.pick(['extract', 'simple', 'reduced'])
        h = g.copy() if sim.flag() else g
        sim.log(how)
        with quiet_order():
            zx.simplify.to_gh(h)
        try:
            if how == 'simple':
                d = zx.extract_circuit(h, optimize_cnots=sim.choose(4), quiet=True)
            elif how == 'reduced':
                zx.full_reduce(h)
                d = zx.extract_circuit(h, quiet=True)
            else:
                d = zx.extract_circuit(h, up_to_perm=False, quiet=True)
        except Exception as e:
            if type(e).__name__ in ('Violation', 'Skip', 'HarnessError'):
                raise
            sim.fail('extraction failed', 'the diagram has a flow but extraction raised %s: %s\n%s' % (type(e).__name__, e, gen.describe(g)),
                     key='extraction failed although there is a flow (%s)' % how)
        with quiet_order():
            x = same(M, circuit_unitary(d), True)
        if x:
            sim.fail('extraction wrong', '%s: %s' % (how, x), key='extraction wrong')
        sim.cover('extracted')


def check(sim, zx, g, r, ref):
    adj, ins, outs, first, measured = facts(zx, g)
    if r is None:
        if ref is not None and ref != 'bare':
            sim.fail('flow missed', 'gflow returns None, but there is one with layers %s\n%s' % (ref[0], gen.describe(g)), key='flow missed')
        return
    l, f, k = r
    for u in measured:
        if u not in f or u not in l:
            sim.fail('unsound flow', 'no correction set for %s' % u, key='unsound flow: vertex missing')
        odd = {}
        for w in f[u]:
            for x in adj[w]:
                odd[x] = odd.get(x, 0) ^ 1
        odd = {x for x, b in odd.items() if b}
        if set(f[u]) & (ins | first):
            sim.fail('unsound flow', 'the correction set of %s contains inputs: %s' % (u, f[u]), key='unsound flow: corrects inputs')
        if u not in odd:
            sim.fail('unsound flow', '%s is not in the odd neighbourhood of %s' % (u, f[u]), key='unsound flow: does not correct itself')
        bad = [w for w in (odd | set(f[u])) - {u} if w in measured | outs and not l.get(w, 10 ** 9) < l[u]]
        if bad or u in f[u]:
            sim.fail('unsound flow', 'correcting %s (layer %s) by %s disturbs %s, layers %s' % (u, l[u], f[u], bad, [l.get(w) for w in bad]), key='unsound flow: order')
        if len(f[u]) > 1:
            sim.nontrivial = True
    extra = set(f) - measured
    if extra:
        sim.fail('unsound flow', 'correction sets for unmeasured vertices %s' % extra, key='unsound flow: unmeasured')
    if ref is None:
        sim.fail('unsound flow', 'there is no flow, gflow returned one\n%s' % gen.describe(g), key='flow invented')
    if ref != 'bare':
        if {v: l[v] for v in measured | outs} != ref[0]:
            sim.fail('flow not maximally delayed', '%s instead of %s\n%s' % (l, ref[0], gen.describe(g)), key='flow not maximally delayed')
        if k != ref[1]:
            sim.fail('depth wrong', 'depth %s, expected %s' % (k, ref[1]), key='flow depth wrong')
