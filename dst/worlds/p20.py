"""P20: simplifying diagrams with H-boxes preserves the linear map up to a non-zero scalar, whatever the order of matches."""
from fractions import Fraction

from .. import gen
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_tensor, same

ID = 'P20'
QUICK_RUNS = 8000
THOROUGH_RUNS = 300_000
RUN_TIMEOUT = 20
RULE = ('A run builds a circuit with Toffoli, CCZ and further controlled gates, converts it to a diagram with H-boxes (states and effects plugged in some '
        'runs, H-boxes of more legs and other phases in some), and applies 1-6 operations: form conversions and H-box strategies, with or without filters, '
        'under an order profile; after each the tensor must equal the original up to a non-zero scalar. Non-trivial: an operation changed the diagram.')
REAL = 'hsimplify, hrules, simplify, rules, circuit-to-graph conversion, graph backends'
ASSUME = ['H-boxes carry phases (labels exp(i phase)), as they do in everything built from circuits.']

STRATS = ['zh_simp', 'hpivot_simp', 'par_hbox_simp', 'par_hbox_intro_simp', 'copy_simp', 'hspider_simp', 'hbox_parallel_not_remove_simp', 'hadamard_simp']
FILTER = {'par_hbox_simp', 'par_hbox_intro_simp', 'copy_simp', 'hspider_simp', 'hbox_parallel_not_remove_simp', 'hadamard_simp'}
FORMS = ['to_hypergraph_form', 'from_hypergraph_form']
PLAIN = ['spider_simp', 'id_simp', 'to_gh', 'pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'interior_clifford_simp']


def build(sim, zx):
    n = sim.between(2, sim.pick([3, 4, 5]))
    kind = sim.pickw([('t', 4), ('c', 3), ('a', 1)])
    menu = sim.pick([['CCZ', 'HAD', 'CNOT', 'T'], ['TOF', 'HAD', 'NOT', 'CZ'], ['CCZ', 'HAD', 'NOT'], ['TOF', 'CCZ', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'NOT', 'Z'],
                     ['CCZ', 'TOF', 'CRZ', 'HAD'], ['CCZ', 'SWAP', 'HAD', 'XPhase']])
    if kind == 'c':
        menu = [m for m in menu if m not in ('T', 'CRZ')]
    c = zx.Circuit(n)
    for _ in range(sim.between(1, sim.pick([4, 9, 14]))):
        m = sim.pick(menu)
        if m in ('CCZ', 'TOF') and n < 3:
            m = 'CZ'
        gen.add_gate(sim, c, m, n, kind)
    g = c.to_graph(zh=not sim.flag(0.15))
    U = circuit_unitary(c)
    return c, g, U


def decorate(sim, zx, g):
    """H-boxes of other arities and phases between Z spiders, as larger controlled phases would give."""
    VT, ET = zx.VertexType, zx.EdgeType
    for _ in range(sim.between(1, 2)):
        zs = [v for v in sorted(g.vertices()) if g.type(v) == VT.Z]
        if len(zs) < 2:
            return
        k = sim.between(1, min(4, len(zs)))
        legs = []
        for _ in range(k):
            v = sim.pick(zs)
            if v not in legs:
                legs.append(v)
        if sim.flag(0.25):
            # the pattern of the intro rule: two like boxes that differ in one NOT, each with some legs ending in single spiders
            p = sim.pick([Fraction(1), Fraction(1, 2), Fraction(1, 4)])
            nots = [sim.flag(0.3) for _ in legs]
            odd = sim.between(0, len(legs) - 1)
            k = sim.pickw([(0, 3), (1, 2), (2, 1)])
            for j in range(2):
                h = g.add_vertex(VT.H_BOX, -1, 1, p)
                for i, v in enumerate(legs):
                    if nots[i] ^ (j == 1 and (i == odd or sim.flag(0.03))):
                        n = g.add_vertex(VT.X, -1, 0.5, 1)
                        g.add_edge((v, n))
                        g.add_edge((n, h))
                    else:
                        g.add_edge((v, h))
                for _ in range(k if sim.flag(0.8) else sim.between(0, 2)):
                    g.add_edge((g.add_vertex(VT.Z, -2, 1, 0 if sim.flag(0.95) else Fraction(1, 4)), h))
            continue
        twice = sim.flag(0.6)
        vias = [sim.pickw([(None, 5), ('not', 2), ('odd', 2)]) for _ in legs]
        for j in range(2 if twice else 1):
            p = sim.pick([Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(3, 2), Fraction(0)]) if not j or sim.flag(0.5) else p
            # sometimes a spider stands where an H-box would
            h = g.add_vertex(VT.H_BOX if not sim.flag(0.06) else sim.pick([VT.Z, VT.X]), -1, 1, p)
            if not j:
                singles = sim.pickw([(0, 6), (1, 2), (2, 1)])
            elif sim.flag(0.2):
                singles = sim.between(0, 2)
            for _ in range(singles):
                g.add_edge((g.add_vertex(VT.Z, -2, 1, sim.pickw([(0, 5), (1, 1), (Fraction(1, 4), 1)])), h))
            for i, v in enumerate(legs):
                via = vias[i]
                if twice and j and sim.flag(0.2):
                    via = sim.pick([None, 'not', 'odd'])
                if via is None:
                    g.add_edge((v, h))
                    continue
                # through a NOT, or through something that only looks like one
                ty, e1, e2, p = sim.pick([(VT.X, 1, 1, 1), (VT.Z, 2, 2, 1)]) if via == 'not' else \
                    sim.pick([(VT.Z, 1, 2, 1), (VT.Z, 1, 2, 1), (VT.X, 2, 1, 1), (VT.Z, 2, 1, 1), (VT.X, 1, 2, 1), (VT.X, 2, 2, 1), (VT.X, 1, 1, 0), (VT.Z, 2, 2, 0),
                              (VT.X, 1, 1, Fraction(1, 2))])
                n = g.add_vertex(ty, -1, 0.5, p)
                g.add_edge((v, n), ET(e1))
                g.add_edge((n, h), ET(e2))


def run(sim):
    import pyzx as zx
    sim.swarm()
    with quiet_order():
        c, g, U = build(sim, zx)
    sim.log('circuit ' + gen.circ_text(c)[:500])
    odd_boxes = sim.flag(0.35)
    if odd_boxes:
        with quiet_order():
            decorate(sim, zx, g)
        sim.cover('decorated')
    if sim.flag(0.3):
        with quiet_order():
            gen.plug(sim, g)
        sim.cover('plugged')
    gen.perturb_history(sim, g)
    with quiet_order():
        try:
            want = graph_tensor(g)
        except MemoryError:
            return
        sim.log(gen.describe(g, 14))
    for _ in range(sim.between(1, 6)):
        name = sim.pickw([('zh_simp', 4), ('hpivot_simp', 4)] + [(n, 1 + 2 * (odd_boxes and 'par' in n)) for n in STRATS] + [(n, 2) for n in FORMS] + [(n, 1) for n in PLAIN])
        with quiet_order():
            before = gen.canon(g)
        sim.log(name)
        if name in PLAIN:
            fn = getattr(zx.simplify, name)
            if name in ('pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp'):
                zx.simplify.to_gh(g)
                zx.simplify.spider_simp(g, quiet=True)
            fn(g) if name == 'to_gh' else fn(g, quiet=True)
        else:
            fn = getattr(zx.hsimplify, name)
            if name in FILTER and sim.flag(0.3):
                odd = sim.between(2, 3)
                k = [0]

                def f(x):
                    k[0] += 1
                    return k[0] % odd == 0
                fn(g, matchf=f, quiet=True)
            elif name in FORMS:
                fn(g)
            else:
                fn(g, quiet=True)
        sim.tick()
        with quiet_order():
            if gen.canon(g) != before:
                sim.nontrivial = True
                sim.cover('changed:' + name)
            if g.num_vertices() > 160:
                sim.cover('too big')
                return
            d = same(want, graph_tensor(g), True)
        if d:
            sim.fail('meaning changed', 'after %s: %s\n%s' % (name, d, gen.describe(g)), key='meaning changed by ' + name)
    sim.log('final ' + gen.describe(g, 14))
