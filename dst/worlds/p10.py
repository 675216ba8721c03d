"""P10: copies, conversions, compositions and queries never alias or change their arguments."""
import copy as _copy
from fractions import Fraction
from .. import gen
from ..core import HarnessError, Skip, Violation, product_frame
from ..seams import quiet_order

ID = 'P10'
QUICK_RUNS = 9000
THOROUGH_RUNS = 400_000
RULE = ('A run keeps a pool of diagrams (both native backends), circuits, bit matrices and scalars.  A seeded scheduler interleaves '
        'deriving new objects from pool members (copies, adjoints, compositions, conversions, optimised versions, queries) with edits, '
        'rewrites and whole strategies on single members; after every step a fingerprint of everything observable about every other '
        'member must be what it was.  Non-trivial: at least one object was derived and one edited.')
REAL = 'graph backends, circuit, gates, simplify, rules, extract, optimize, simulate, io, tikz, linalg, scalar, symbolic, diff'
ASSUME = ['Gate objects handed to add_gate by the caller, and mutable values put in vdata by the caller, are the caller\'s to share.']


def vd(g):
    return {v: {k: repr(g.vdata(v, k)) for k in g.vdata_keys(v)} for v in g.vertices() if len(list(g.vdata_keys(v)))}


def fp_scalar(s):
    return (s.power2, str(s.phase), tuple(str(p) for p in s.phasenodes), complex(s.floatfactor), bool(s.is_unknown), bool(s.is_zero))


def fp_graph(g):
    vs = {v: (int(g.type(v)), str(g.phase(v)), g.qubit(v), g.row(v), g.is_ground(v)) for v in g.vertices()}
    es = {}
    for e in g.edges():
        k = (tuple(sorted(g.edge_st(e))), int(g.edge_type(e)))
        es[k] = es.get(k, 0) + 1
    return {'vertices': vs, 'edges': es, 'inputs': tuple(g.inputs()), 'outputs': tuple(g.outputs()), 'scalar': fp_scalar(g.scalar),
            'vdata': vd(g), 'counts': (g.num_vertices(), g.num_edges()),
            'degrees': {v: g.vertex_degree(v) for v in g.vertices()},
            'variable types': dict(g.variable_types), 'phase tracking': bool(g.track_phases), 'backend': type(g).__name__}


def fp_gate(x):
    d = {}
    for k, v in vars(x).items():
        d[k] = tuple(v) if isinstance(v, (list, tuple)) else v
    return (type(x).__name__, d)


def fp_circuit(c):
    return {'qubits': c.qubits, 'bits': c.bits, 'name': c.name, 'gates': [fp_gate(x) for x in c.gates]}


def fp_mat(m):
    return {'data': [list(r) for r in m.data]}


def fp_poly(p):
    return {'phases': {str(k): str(v) for k, v in p.zphases.items()}, 'outputs': [str(x) for x in p.out_par], 'parities': [str(x) for x in p.all_parities]}


def fp_arch(a):
    return {'vertices': list(a.vertices), 'edges': sorted(tuple(sorted(a.graph.edge_st(e))) for e in a.graph.edges()), 'name': a.name}


FP = {'graph': fp_graph, 'circuit': fp_circuit, 'mat': fp_mat, 'scalar': lambda s: {'scalar': fp_scalar(s)}, 'poly': fp_poly, 'arch': fp_arch}


class Pool:
    def __init__(self, sim):
        self.sim = sim
        self.items = []          # [name, kind, obj, fingerprint]
        self.n = 0
        self.touched = None      # the member the current step changes in place
        self.derived = self.edited = 0

    def add(self, kind, obj, how):
        if any(o is obj for _, _, o, _ in self.items):
            self.sim.fail('not a new object', '%s returned an object that is already in use' % how, key='not new: ' + how)
        if len(self.items) >= 9:
            self.items.pop(self.sim.choose(len(self.items)))
        self.n += 1
        with quiet_order():
            self.items.append(['%s%d' % (kind[0], self.n), kind, obj, FP[kind](obj)])

    def of(self, kind):
        return [it for it in self.items if it[1] == kind]

    def check(self, what, changed=()):
        with quiet_order():
            for it in self.items:
                name, kind, obj, old = it
                try:
                    new = FP[kind](obj)
                except Exception as e:
                    self.sim.fail('object broken', '%s broke %s: %r' % (what, name, e), key='%s broke another object' % what)
                if name in changed:
                    it[3] = new
                    continue
                if new != old:
                    diff = [k for k in new if new[k] != old[k]]
                    det = '; '.join('%s: %s -> %s' % (k, str(old[k])[:300], str(new[k])[:300]) for k in diff)
                    self.sim.fail('changed another object', '%s changed %s (%s)' % (what, name, det),
                                  key='%s changed %s of another object' % (what, ', '.join(diff)))


def sym_phase(sim, g):
    from pyzx.symbolic import Poly, new_var
    name = sim.pick(['a', 'b', 'c'])
    v = new_var(name, g.variable_types) if name in g.variable_types else None
    if v is None:
        g.variable_types[name] = sim.flag()
        v = new_var(name, g.variable_types)
    return v * Fraction(1, 2) + gen.phase(sim, 't') if sim.flag() else v


def new_graph(sim):
    import pyzx as zx
    how = sim.pickw([('any', 5), ('multi', 3), ('zh', 1), ('hybrid', 1)])
    if how == 'any':
        g, _ = gen.any_diagram(sim, sim.pickw([('t', 3), ('c', 1)]), qmax=3, gmax=14, vmax=7)
    elif how == 'multi':
        g = gen.graph(sim, vmax=6, bmax=4, backend='multigraph')
        g.set_auto_simplify(sim.flag())
    elif how == 'zh':
        c = gen.circuit(sim, 3, 3, 8, 't', ['CCZ', 'TOF', 'HAD', 'CNOT', 'T'])
        g = c.to_graph(zh=True)
    else:
        c = zx.Circuit(2, bit_amount=1)
        for _ in range(sim.between(1, 6)):
            gen.add_gate(sim, c, sim.pick(['HAD', 'CNOT', 'T', 'S']), 2, 't')
        g = c.to_graph()
        vs = [v for v in sorted(g.vertices()) if g.type(v) == 1]
        for v in sim.subset(vs, 0.3):
            g.set_ground(v, True)
    if sim.flag(0.3):
        vs = sorted(g.vertices())
        for v in sim.subset(vs, 0.3):
            g.set_vdata(v, sim.pick(['label', 'p']), sim.choose(9))
    if sim.flag(0.25):
        vs = [v for v in sorted(g.vertices()) if g.type(v) in (1, 2)]
        for v in sim.subset(vs, 0.3):
            g.set_phase(v, sym_phase(sim, g))
    return g


MENU = ['ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'XPhase', 'NOT', 'Z', 'SWAP', 'XCX', 'SX', 'CHAD', 'CY', 'CRZ', 'CPhase', 'RZZ', 'CCZ', 'TOF',
        'ParityPhase', 'YPhase']
BASIC = ['ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'XPhase', 'NOT', 'Z', 'SWAP']


def derive_graph(sim, P, zx):
    it = sim.pick(P.of('graph'))
    g = it[2]
    gs = P.of('graph')
    op = sim.pickw([('copy', 4), ('clone', 4), ('adjoint', 2), ('deepcopy', 1), ('backend', 1), ('sub', 2), ('+', 3), ('*', 2), ('@', 3),
                    ('json', 2), ('tikz', 1), ('diff', 2), ('teleport', 2), ('stab', 2), ('extract', 2), ('circ', 1), ('query', 4), ('+=', 2),
                    ('merge', 2), ('anneal', 1), ('scalar', 1)])
    plain = all(g.type(v) in (0, 1, 2) for v in g.vertices()) and not g.is_hybrid()
    numeric = all(isinstance(g.phase(v), (int, Fraction)) for v in g.vertices())
    simple = type(g).__name__ == 'GraphS'
    changed = ()
    new = []
    if op in ('teleport', 'stab', 'extract', 'circ', 'anneal') and not (plain and numeric and simple):
        op = 'clone'
    if op == 'json' and any(int(g.type(v)) in (4,) for v in g.vertices()):
        op = 'clone'
    what = op
    if op == 'copy':
        new = [g.copy()]
    elif op == 'clone':
        new = [g.clone()]
    elif op == 'adjoint':
        if not numeric:
            new = [g.copy()]
        else:
            new = [g.adjoint() if sim.flag() else g.copy(adjoint=True)]
    elif op == 'deepcopy':
        new = [_copy.deepcopy(g)]
    elif op == 'backend':
        b = 'multigraph' if simple else 'simple'
        new = [g.copy(backend=b)] if b == 'multigraph' else [g.copy()]
    elif op == 'sub':
        vs = sim.subset(sorted(g.vertices()), 0.7)
        keep = list(vs)
        new = [g.subgraph_from_vertices(vs)]
        if vs != keep:
            sim.fail('argument changed', 'subgraph_from_vertices changed the list it was given')
    elif op in ('+', '*', '@', '+='):
        other = sim.pick(gs)
        h = other[2]
        what = 'graph ' + op
        if type(h) is not type(g):
            h = h.copy(backend=type(g).backend) if type(h).__name__ == 'GraphS' else None
        if h is None:
            new = [g.copy()]
        elif op == '@':
            new = [g @ h if sim.flag() else g.tensor(h)]
        else:
            a, b = (h, g) if op == '*' else (g, h)
            try:
                if op == '+':
                    new = [g + h]
                elif op == '*':
                    new = [g * h]
                else:
                    changed = (it[0],)
                    if len(a.outputs()) == len(b.inputs()):
                        P.touched = it[0]
                    if sim.flag():
                        g.compose(h)
                    else:
                        x = g
                        x += h
            except TypeError:
                if len(a.outputs()) == len(b.inputs()):
                    raise
                sim.cover('mismatch rejected')
                changed = ()
    elif op == 'merge':
        h = sim.pick(gs)[2]
        if type(h) is type(g) and h is not g:
            P.touched = it[0]
            changed = (it[0],)
            g.merge(h)
    elif op == 'json':
        s = g.to_json()
        h = type(g).from_json(s)
        new = [h]
    elif op == 'tikz':
        if plain and numeric and simple:
            s = g.to_tikz()
            new = []
    elif op == 'diff':
        from pyzx.graph.diff import GraphDiff
        h = sim.pick(gs)[2]
        if type(h) is type(g) and simple:
            d = GraphDiff(g, h)
            if sim.flag():
                new = [d.apply_diff(g)]
            if new and sim.flag(0.3):
                new.append(d.apply_diff(g))
    elif op == 'teleport':
        new = [zx.teleport_reduce(g)]
    elif op == 'stab':
        if zx.simplify.tcount(g) and zx.simplify.is_graph_like(g):
            if sim.flag():
                sg = zx.simulate.replace_magic_states(g, pick_random=sim.flag())
                what = 'replace_magic_states'
                new = list(sg.graphs)
                if g.outputs() and not g.inputs() and sim.flag():
                    ps = sg.post_select({0: sim.pick(['0', '1', '+', '-'])})
                    new = new[:2] + list(ps.graphs)[:2]
            elif not g.inputs() and not g.outputs() and zx.simplify.tcount(g) <= 8:
                what = 'find_stabilizer_decomp'
                zx.simulate.find_stabilizer_decomp(g.copy())
    elif op == 'extract':
        h = g.copy()
        with quiet_order():
            U = None
        if len(h.inputs()) == len(h.outputs()) and len(h.inputs()):
            try:
                zx.full_reduce(h)
                c = zx.extract_circuit(h)
                P.add('circuit', c, 'extract_circuit')
            except Exception:
                pass         # not every diagram is a circuit
    elif op == 'circ':
        try:
            c = zx.Circuit.from_graph(g, split_phases=sim.flag())
            P.add('circuit', c, 'Circuit.from_graph')
        except Exception:
            pass
    elif op == 'anneal':
        h = None
        if zx.simplify.is_graph_like(g) and g.num_vertices() < 14 and any(g.type(v) == 1 for v in g.vertices()):
            from pyzx.local_search.simulated_annealing import anneal
            from pyzx.local_search.scores import g_wgc
            try:
                h, _ = anneal(g, iters=2, score=g_wgc, quiet=True)
            except Exception:
                h = None
        if h is not None:
            new = [h]
    elif op == 'scalar':
        P.add('scalar', g.scalar.copy(conjugate=sim.flag() and numeric), 'Scalar.copy')
    else:
        what = query(sim, g, gs, zx, plain, numeric, simple)
    P.check(what, changed)
    for h in new:
        P.add('graph', h, what)
    if new:
        P.derived += 1
    sim.cover('derive:' + what)
    return what


def query(sim, g, gs, zx, plain, numeric, simple):
    q = sim.pick(['tensor', 'compare', 'gflow', 'stats', 'graphlike', 'tcount', 'todict', 'tikz', 'gh', 'is_id', 'graphml', 'draw', 'matplotlib'])
    small = g.num_vertices() <= 12 and len(g.inputs()) + len(g.outputs()) <= 6 and g.num_edges() <= 16
    ev = small and numeric and not g.is_hybrid() and simple
    if q == 'tensor' and ev:
        g.to_tensor()
        g.to_matrix()
    elif q == 'compare' and ev:
        zx.compare_tensors(g, g)
        zx.tensor.is_unitary(g)
    elif q == 'gflow' and plain and simple:
        zx.gflow.gflow(g)
    elif q == 'stats':
        g.stats(), str(g), g.depth(), g.qubit_count(), g.vertex_set(), g.edge_set()
    elif q == 'graphlike':
        zx.simplify.is_graph_like(g), zx.simplify.is_graph_like(g, True)
    elif q == 'tcount' and numeric:
        zx.simplify.tcount(g)
    elif q == 'todict':
        g.types(), g.phases(), g.qubits(), g.rows()
    elif q == 'tikz' and simple and plain:
        g.to_tikz(), zx.tikz.to_tikz_sequence([g, g])
    elif q == 'graphml' and simple and plain and numeric:
        g.to_graphml()
    elif q == 'is_id':
        try:
            g.is_id()
        except (ValueError, IndexError, StopIteration):
            pass
    elif q == 'draw' and simple and plain and numeric:
        try:
            zx.drawing.draw_d3(g)
        except Exception:
            pass
    elif q == 'matplotlib' and g.num_vertices() <= 30:
        try:
            zx.drawing.draw_matplotlib(g, labels=sim.flag(), h_edge_draw=sim.pick(['blue', 'box']), show_scalar=numeric and sim.flag(0.3))
        except (NotImplementedError, ImportError):
            pass
    return 'query ' + q


def derive_circuit(sim, P, zx):
    it = sim.pick(P.of('circuit'))
    c = it[2]
    op = sim.pickw([('copy', 2), ('adjoint', 2), ('+', 3), ('@', 3), ('basic', 4), ('split', 3), ('mask', 2), ('graph', 3), ('opt', 3), ('query', 3),
                    ('verify', 2), ('text', 2), ('iadd', 2), ('phasepoly', 4), ('cnotmap', 1)])
    what, new, changed = 'circuit ' + op, [], ()
    basic = all(x.name in ('ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'XPhase', 'NOT', 'Z', 'SWAP') for x in c.gates)
    if op == 'copy':
        new = [c.copy()]
    elif op == 'adjoint':
        new = [c.adjoint()]
    elif op in ('+', 'iadd'):
        other = sim.pick(P.of('circuit'))
        d = other[2]
        try:
            if op == '+':
                new = [c + d]
            else:
                changed = (it[0],)
                P.touched = it[0] if c.qubits == d.qubits and c.bits == d.bits else None
                if sim.flag():
                    c.add_circuit(d)
                else:
                    x = c
                    x += d
        except TypeError:
            if c.qubits == d.qubits and c.bits == d.bits:
                raise
            changed = ()
    elif op == '@':
        d = sim.pick(P.of('circuit'))[2]
        if c.qubits + d.qubits <= 8:
            new = [c @ d]
    elif op == 'basic':
        new = [c.to_basic_gates()]
    elif op == 'split':
        new = [c.split_phase_gates()]
    elif op == 'mask':
        d = sim.pick(P.of('circuit'))[2]
        if d.qubits <= c.qubits and d is not c:
            mask = sim.shuffled(range(c.qubits))[:d.qubits]
            keep = list(mask)
            changed = (it[0],)
            P.touched = it[0]
            c.add_circuit(d, mask=mask)
            if mask != keep:
                sim.fail('argument changed', 'add_circuit changed the mask')
    elif op == 'graph':
        g = c.to_graph(zh=sim.flag(0.3), compress_rows=sim.flag(), backend=sim.pick([None, None, 'multigraph']))
        P.check(what)
        P.add('graph', g, 'Circuit.to_graph')
        return what
    elif op == 'opt':
        f = sim.pick(['basic_optimization', 'full_optimize', 'phase_block_optimize'])
        what = f
        ct = all(getattr(x, 'phase', Fraction(0)).denominator in (1, 2, 4) for x in c.gates if hasattr(x, 'phase'))
        if f == 'basic_optimization' and basic:
            new = [zx.optimize.basic_optimization(c, do_swaps=sim.flag())]
        elif f != 'basic_optimization' and basic and ct and c.qubits <= 4:
            new = [getattr(zx.optimize, f)(c)]
    elif op == 'query':
        c.tcount(), c.twoqubitcount(), c.stats(True), c.stats_dict(True), c.depth(), str(c), len(c), list(c)
        zx.simplify.tcount(c)
    elif op == 'verify':
        d = sim.pick(P.of('circuit'))[2]
        if c.qubits == d.qubits and len(c.gates) + len(d.gates) < 40:
            c.verify_equality(d, up_to_swaps=sim.flag())
    elif op == 'text':
        for f in ('to_qasm', 'to_qc', 'to_quipper', 'to_emoji'):
            try:
                getattr(c, f)()
            except (TypeError, AttributeError, NotImplementedError, ValueError):
                pass
    elif op == 'phasepoly':
        if basic and c.qubits <= 4:
            from pyzx.routing.architecture import create_architecture
            from pyzx.routing.phase_poly import route_phase_poly, PhasePoly, RoutingMethod, RootHeuristic
            names = {'ZPhase', 'S', 'T', 'Z', 'CNOT'}
            if c.gates and all(x.name in names for x in c.gates):
                archs = [x[2] for x in P.of('arch') if len(x[2].vertices) == c.qubits]
                if archs and sim.flag(0.6):
                    arch = sim.pick(archs)
                else:
                    arch = create_architecture(sim.pick(['fully_connected', 'line'] + (['circle'] if c.qubits > 2 else [])), n_qubits=c.qubits)
                    P.add('arch', arch, 'create_architecture')
                pp = c
                if sim.flag(0.7):
                    old = [x[2] for x in P.of('poly') if x[2].n_qubits == c.qubits]
                    if old and sim.flag():
                        pp = sim.pick(old)
                    else:
                        pp = PhasePoly.fromCircuit(c)
                        P.add('poly', pp, 'PhasePoly.fromCircuit')
                meth = sim.pick([RoutingMethod.MEIJER, RoutingMethod.GRAY, RoutingMethod.GRAY_MEIJER, RoutingMethod.MATROID])
                kw = dict(root_heuristic=RootHeuristic.RECURSIVE if sim.flag() else RootHeuristic.ARITY) if meth == RoutingMethod.GRAY else {}
                what = 'route_phase_poly'
                sim.log('routing with %s' % meth)
                new = [route_phase_poly(pp, arch, method=meth, **kw)]
                if pp is c and sim.flag(0.5):
                    new.append(route_phase_poly(pp, arch))
    elif op == 'cnotmap':
        if c.gates and all(x.name == 'CNOT' for x in c.gates) and c.qubits > 1:
            from pyzx.routing.parity_maps import CNOT_tracker
            t = CNOT_tracker.from_circuit(c)
            new = [t.copy() if sim.flag(0.3) else t]
    P.check(what, changed)
    for d in new:
        P.add('circuit', d, what)
    if new:
        P.derived += 1
    sim.cover('derive:' + what)
    return what


def derive_mat(sim, P, zx):
    from pyzx.linalg import Mat2
    it = sim.pick(P.of('mat'))
    m = it[2]
    op = sim.pick(['copy', 'transpose', 'inverse', 'factor', 'solve', 'rank', 'nullspace', 'mul', 'cnots', 'slice', 'str', 'eq'])
    what, new = 'Mat2 ' + op, []
    ms = [x[2] for x in P.of('mat')]
    if op in ('copy', 'transpose'):
        new = [getattr(m, op)()]
    elif op == 'inverse':
        r = m.inverse()
        new = [r] if r is not None else []
    elif op == 'factor':
        new = list(m.factor())
    elif op == 'solve':
        b = [x for x in ms if x.cols() == 1 and x.rows() == m.rows()]
        r = m.solve(sim.pick(b) if b else Mat2([[sim.choose(2)] for _ in range(m.rows())]))
        new = [r] if r is not None else []
    elif op == 'rank':
        m.rank()
    elif op == 'nullspace':
        m.nullspace()
    elif op == 'mul':
        b = [x for x in ms if x.rows() == m.cols()]
        if b:
            new = [m * sim.pick(b)]
    elif op == 'cnots':
        if m.rows() == m.cols() and m.rank() == m.rows():
            m.to_cnots(optimize=sim.flag(), use_log_blocksize=sim.flag())
    elif op == 'slice':
        a, b = sim.choose(m.rows()), sim.choose(m.cols())
        new = [m[a:, b:]]
    elif op == 'str':
        str(m)
    else:
        m == sim.pick(ms)
    P.check(what)
    for r in new:
        if r.rows() and r.cols():
            P.add('mat', r, what)
            P.derived += 1


def derive_scalar(sim, P, zx):
    from pyzx.graph.scalar import Scalar
    s = sim.pick(P.of('scalar'))[2]
    op = sim.pick(['copy', 'conjugate', 'number', 'json', 'text'])
    new = []
    num = all(isinstance(p, (int, Fraction)) for p in list(s.phasenodes) + [s.phase])
    if op == 'copy':
        new = [s.copy()]
    elif op == 'conjugate' and num:
        new = [s.conjugate()]
    elif op == 'number' and num:
        s.to_number()
    elif op == 'json' and num and isinstance(s.floatfactor, (int, float)):
        new = [Scalar.from_json(s.to_json())]
    elif op == 'text' and num and not s.is_zero:
        s.to_latex(), s.to_unicode(), str(s), s.polar_str()
    P.check('Scalar ' + op)
    for r in new:
        P.add('scalar', r, 'Scalar ' + op)
        P.derived += 1


STRATS = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'spider_simp', 'id_simp', 'to_gh', 'to_rg', 'pivot_simp', 'lcomp_simp']


def edit(sim, P, zx):
    it = sim.pick([i for i in P.items if i[1] not in ('poly', 'arch')] or P.items)
    name, kind, x, _ = it
    if kind in ('poly', 'arch'):
        return
    what = 'edit ' + kind
    P.touched = name
    if kind == 'graph':
        vs = sorted(x.vertices())
        es = sorted(x.edges(), key=str)
        plain = all(x.type(v) in (0, 1, 2) for v in vs) and not x.is_hybrid()
        numeric = all(isinstance(x.phase(v), (int, Fraction)) for v in vs)
        op = sim.pick(['phase', 'addphase', 'type', 'addv', 'delv', 'dele', 'etype', 'vdata', 'ground', 'pos', 'inputs', 'scalar', 'vartypes', 'strategy',
                       'normalize', 'plug', 'sym', 'track', 'isolated', 'auto'])
        what = 'graph edit ' + op
        v = sim.pick(vs) if vs else None
        spid = [u for u in vs if x.type(u) in (1, 2)]
        if op == 'phase' and spid:
            x.set_phase(sim.pick(spid), gen.phase(sim, 't'))
        elif op == 'addphase' and spid:
            x.add_to_phase(sim.pick(spid), gen.phase(sim, 't'))
        elif op == 'type' and spid:
            u = sim.pick(spid)
            x.set_type(u, 3 - x.type(u))
        elif op == 'addv':
            u = x.add_vertex(sim.between(1, 2), 1, 2, gen.phase(sim))
            if spid:
                x.add_edge((sim.pick(spid), u), sim.between(1, 2))
        elif op == 'delv' and spid:
            x.remove_vertex(sim.pick(spid))
            gone = [b for b in list(x.inputs()) + list(x.outputs()) if x.vertex_degree(b) != 1]
            for b in gone:
                u = x.add_vertex(1)
                x.add_edge((u, b))
        elif op == 'dele' and es:
            e = sim.pick(es)
            s, t = x.edge_st(e)
            if x.type(s) != 0 and x.type(t) != 0:
                x.remove_edge(e)
        elif op == 'etype' and es:
            e = sim.pick(es)
            if x.edge_type(e) in (1, 2):
                x.set_edge_type(e, 3 - x.edge_type(e))
        elif op == 'vdata' and vs:
            x.set_vdata(v, sim.pick(['label', 'p', 'q']), 10 + sim.choose(9))
        elif op == 'ground' and spid and not plain:
            x.set_ground(sim.pick(spid), sim.flag())
        elif op == 'pos' and vs:
            x.set_position(v, sim.choose(9), sim.choose(9))
        elif op == 'inputs':
            x.set_inputs(tuple(sim.shuffled(x.inputs())))
            x.set_outputs(tuple(sim.shuffled(x.outputs())))
        elif op == 'scalar':
            edit_scalar(sim, x.scalar, P)
        elif op == 'vartypes':
            x.variable_types[sim.pick(['x', 'y'])] = sim.flag()
        elif op == 'sym' and spid and plain:
            x.set_phase(sim.pick(spid), sym_phase(sim, x))
        elif op == 'strategy' and plain and type(x).__name__ == 'GraphS':
            n = sim.pick(STRATS) if numeric else sim.pick(['spider_simp', 'id_simp', 'to_gh'])
            what = n
            if n in ('pivot_simp', 'lcomp_simp') and not zx.simplify.is_graph_like(x):
                zx.simplify.to_gh(x)
                zx.simplify.spider_simp(x, quiet=True)
            f = getattr(zx.simplify, n)
            f(x) if n == 'to_rg' else f(x, quiet=True)
        elif op == 'normalize' and type(x).__name__ == 'GraphS':
            x.normalize()
        elif op == 'plug':
            gen.plug(sim, x)
        elif op == 'isolated':
            if numeric and plain:
                x.remove_isolated_vertices()
        elif op == 'track' and spid:
            x.phase_negate(sim.pick(spid)) if x.track_phases else None
    elif kind == 'circuit':
        op = sim.pick(['gate', 'gate', 'gate', 'add', 'del', 'insert', 'name', 'row'])
        what = 'circuit edit ' + op
        if op == 'gate' and x.gates:
            y = sim.pick(x.gates)
            f = sim.pick(sorted(k for k in vars(y) if k in ('target', 'control', 'phase', 'adjoint', 'ctrl1', 'ctrl2', 'targets', 'index')) or ['index'])
            if f == 'phase':
                y.phase = (y.phase + Fraction(1, 4)) % 2 if type(y).__name__ in ('ZPhase', 'XPhase', 'ParityPhase', 'CRZ', 'CPhase', 'YPhase') else y.phase
            elif f == 'adjoint':
                y.adjoint = not y.adjoint
            elif f == 'targets':
                y.targets = tuple(reversed(y.targets))
            elif f == 'target' and hasattr(y, 'control') and not hasattr(y, 'targets'):
                y.target, y.control = y.control, y.target
            elif f == 'target' and not hasattr(y, 'ctrl1') and not hasattr(y, 'targets'):
                y.target = sim.choose(x.qubits)
            elif f == 'ctrl1':
                y.ctrl1, y.ctrl2 = y.ctrl2, y.ctrl1
            else:
                y.index = 1 + sim.choose(9)
        elif op == 'add':
            gen.add_gate(sim, x, sim.pick(BASIC), x.qubits, 't')
        elif op == 'del' and x.gates:
            x.gates.pop(sim.choose(len(x.gates)))
        elif op == 'insert' and x.qubits:
            x.prepend_gate(zx.gates.HAD(sim.choose(x.qubits)))
        elif op == 'name':
            x.name = 'n%d' % sim.choose(99)
        elif op == 'row' and x.qubits > 1:
            x.row_add(0, 1)
    elif kind == 'mat':
        op = sim.pick(['row_add', 'col_add', 'swap', 'gauss', 'set', 'perm', 'cswap', 'permc'])
        what = 'Mat2 ' + op
        r, c = x.rows(), x.cols()
        if op == 'row_add' and r > 1:
            x.row_add(0, 1 + sim.choose(r - 1))
        elif op == 'col_add' and c > 1:
            x.col_add(0, 1 + sim.choose(c - 1))
        elif op == 'swap':
            x.row_swap(sim.choose(r), sim.choose(r))
        elif op == 'cswap':
            x.col_swap(sim.choose(c), sim.choose(c))
        elif op == 'gauss':
            x.gauss(full_reduce=sim.flag())
        elif op == 'set':
            x[sim.choose(r), sim.choose(c)] = sim.choose(2)
        elif op == 'perm':
            x.permute_rows(sim.shuffled(range(r)))
        elif op == 'permc':
            x.permute_cols(sim.shuffled(range(c)))
    else:
        edit_scalar(sim, x, P)
    sim.log('%s on %s' % (what, name))
    P.check(what, (name,))
    P.edited += 1
    sim.cover(what)
    return what


def edit_scalar(sim, s, P):
    op = sim.pick(['power', 'phase', 'node', 'float', 'pair', 'mult', 'unknown'])
    if op == 'power':
        s.add_power(1 + sim.choose(3))
    elif op == 'phase':
        s.add_phase(Fraction(1, 4))
    elif op == 'node':
        s.add_node(gen.phase(sim, 't'))
    elif op == 'float':
        s.add_float(0.5)
    elif op == 'pair':
        s.add_spider_pair(gen.phase(sim, 't'), gen.phase(sim, 't'))
    elif op == 'mult':
        o = [it for it in P.of('scalar')]
        if o:
            o = sim.pick(o)[2]
            if o is not s and len(o.phasenodes) < 20:
                s.mult_with_scalar(o)
    elif sim.flag(0.2):
        s.set_unknown()


def run(sim):
    import pyzx as zx
    from pyzx.linalg import Mat2
    sim.swarm()
    P = Pool(sim)
    for _ in range(sim.between(1, 2)):
        P.add('graph', new_graph(sim), 'generator')
    for _ in range(sim.between(1, 2)):
        c = gen.circuit(sim, 1, 4, 12, sim.pick(['t', 'c', 'a']), MENU if sim.flag() else (['CNOT', 'T', 'S', 'ZPhase'] if sim.flag(0.4) else BASIC))
        P.add('circuit', c, 'generator')
    if sim.flag(0.3):
        r, c = sim.between(1, 4), sim.between(1, 4)
        P.add('mat', Mat2([[sim.choose(2) for _ in range(c)] for _ in range(r)]), 'generator')
    for _ in range(sim.between(3, 22)):
        kind = sim.pickw([('edit', 5), ('graph', 5), ('circuit', 4), ('mat', 1), ('scalar', 1)])
        if kind != 'edit' and not P.of(kind):
            continue
        f = {'edit': edit, 'graph': derive_graph, 'circuit': derive_circuit, 'mat': derive_mat, 'scalar': derive_scalar}[kind]
        P.touched = None
        try:
            w = f(sim, P, zx)
            sim.log('%s -> %s' % (w, ' '.join(it[0] for it in P.items)))
        except (Violation, Skip, HarnessError):
            raise
        except Exception as e:
            # refusing an operation is no concern of this property, but it must not have touched anything else either
            if product_frame(e.__traceback__) is None:
                raise
            sim.cover('refused')
            sim.log('%s refused: %s' % (kind, type(e).__name__))
            P.items = [it for it in P.items if it[0] != P.touched]
            P.check('a refused operation')
        sim.tick()
    sim.nontrivial = P.derived > 0 and P.edited > 0
