"""Deterministic jobs on inputs of their own: used to compare runs alone, in other threads, after other histories and in other processes.
A job is (name, fn); fn builds everything from plain data and returns a canonical text."""
import math
import os
from fractions import Fraction
import numpy as np
from . import gen


DRAWS = ('decompose',)      # draw random numbers, though what they return does not depend on them
KEPT = None      # when a list: objects the operations returned, for a history that goes on to modify them


def keep(x):
    if KEPT is not None:
        KEPT.append(x)
    return x


def vandalise(sim, x):
    """What a user may do to an object an operation returned."""
    if isinstance(x, (list, set, dict)):
        x.clear()
    elif hasattr(x, 'num_vertices'):
        for v in list(x.vertices())[::2]:
            x.remove_vertex(v)
        x.set_inputs(())
        x.set_outputs(())
        x.scalar.add_power(7)
    elif hasattr(x, 'gates'):
        for g in x.gates:
            if hasattr(g, 'target'):
                g.target = 0
            if hasattr(g, 'phase'):
                g.phase = Fraction(1, 3)
        del x.gates[::2]
        x.add_gate('HAD', 0)
    elif hasattr(x, 'data'):
        for r in x.data:
            r[0] ^= 1
    elif hasattr(x, 'shape'):
        x *= 3


def show_phase(p):
    return str(p)


def show_graph(g, scalar=True):
    vs = ['%s:%d(%s)@%s,%s%s' % (v, int(g.type(v)), show_phase(g.phase(v)), g.qubit(v), g.row(v), 'G' if g.is_ground(v) else '') for v in sorted(g.vertices())]
    es = sorted('%s-%s:%d' % (min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.edges())
    out = 'V[%s] E[%s] in%s out%s' % (' '.join(vs), ' '.join(es), tuple(g.inputs()), tuple(g.outputs()))
    if scalar:
        out += ' scalar ' + show_scalar(g.scalar)
    return out


def show_scalar(s):
    return '%s %s %s %s %s %s' % (s.power2, show_phase(s.phase), [str(p) for p in s.phasenodes], np.round(complex(s.floatfactor), 9), s.is_zero, s.is_unknown)


def show_circ(c):
    return '%s/%s: %s' % (c.qubits, getattr(c, 'bits', 0), '; '.join(show_gate(g) for g in c.gates))


def show_gate(g):
    return '%s%s' % (g.name, sorted((k, str(v)) for k, v in g.__dict__.items() if k not in ('index',)))


def show_array(a):
    a = np.asarray(a)
    return '%s %s' % (a.shape, [str(x) for x in np.round(a.reshape(-1)[:512], 7) + 0.0])


def gates_of(c):
    """plain data from which circuit_from builds an equal circuit"""
    out = []
    for g in c.gates:
        out.append((g.name, {k: v for k, v in g.__dict__.items() if k not in ('index', 'repr_index')}))
    return c.qubits, out


def copy_of(c):
    return c.copy()


SIMPS = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp', 'pivot_gadget_simp',
         'pivot_boundary_simp', 'gadget_simp', 'lcomp_simp', 'supplementarity_simp', 'to_gh', 'to_rg', 'bialg_simp', 'copy_simp']
TEXT_MENU = ['HAD', 'CNOT', 'CZ', 'S', 'T', 'NOT', 'Z', 'TOF', 'CCZ', 'SWAP']
CT = ['HAD', 'CNOT', 'CZ', 'S', 'T', 'NOT', 'Z']
POLYS = ['a + b', '3*a*b + 1/2', '1/4*x + pi', 'a*b*c + 1/2*a + 3/4', '2*a + 3*a', 'x^2 + 1', 'theta + 1/2*phi', 'a + a*b + 1/8*b', '(a)', 'a &', '3/4', 'k*k*k']


def make(sim, zx, size=1):
    """Draw a job.  size scales the inputs."""
    name = sim.pickw([('simp', 6), ('extract', 5), ('opt', 4), ('tele', 3), ('tensor', 4), ('parse', 4), ('print', 2), ('equal', 3), ('poly', 2), ('json', 2),
                      ('tikz', 2), ('linalg', 4), ('flow', 2), ('stats', 2), ('route', 2), ('hbox', 2), ('diff', 1), ('decompose', 2),
                      ('compose', 2), ('edit', 2), ('scalar', 1), ('phasepoly', 1), ('editor', 1), ('d3', 1)])
    return name, JOBS[name](sim, zx, size)


def circ(sim, size, kind='t', menu=None, q=5, g=40):
    return gen.circuit(sim, 1, q, max(2, int(g * size)), kind, menu)


def graph_of(sim, c, backend):
    def f():
        return c.copy().to_graph(backend=backend)
    return f


def backend(sim):
    return 'simple'


def j_simp(sim, zx, size):
    names = [sim.pick(SIMPS) for _ in range(sim.between(1, 2))]
    kind = sim.pick(['t', 'c', 'a'])
    if sim.flag(0.7):
        c = circ(sim, size, kind)
        mk = graph_of(sim, c, 'simple')
    else:
        from .sessions import start
        g0 = gen.graph(sim, vmax=8, kind=kind)
        mk = g0.clone if hasattr(g0, 'clone') else g0.copy
    sim.log('job simp %s' % names)

    def f():
        g = mk()
        for n in names:
            fn = getattr(zx.simplify, n)
            if n in ('pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'gadget_simp', 'supplementarity_simp'):
                zx.simplify.spider_simp(g, quiet=True)
                zx.simplify.to_gh(g)
            fn(g) if n in ('to_gh', 'to_rg') else fn(g, quiet=True)
        return show_graph(g)
    return f


def j_extract(sim, zx, size):
    c = circ(sim, size)
    opts = {k: sim.flag() for k in ('optimize_czs', 'optimize_cnots')} if sim.flag() else {}
    if opts.get('optimize_cnots'):
        opts['optimize_cnots'] = sim.choose(3)
    how = sim.pick(['full_reduce', 'clifford_simp', 'teleport'])

    def f():
        g = c.copy().to_graph()
        if how == 'teleport':
            g = zx.simplify.teleport_reduce(g, quiet=True)
            zx.simplify.spider_simp(g, quiet=True)
            zx.simplify.to_gh(g)
            zx.simplify.id_simp(g, quiet=True)
            return show_graph(g)
        getattr(zx.simplify, how)(g, quiet=True)
        return show_circ(keep(zx.extract.extract_circuit(g, quiet=True, **opts)))
    return f


def j_opt(sim, zx, size):
    c = circ(sim, size, 't', CT)
    swaps = sim.flag(0.7)
    return lambda: show_circ(keep(zx.optimize.basic_optimization(c.copy(), do_swaps=swaps)))


def j_tele(sim, zx, size):
    c = circ(sim, size)

    def f():
        g = keep(zx.simplify.teleport_reduce(c.copy().to_graph(), quiet=True))
        return show_graph(g) + show_circ(keep(keep(zx.Circuit.from_graph(g)).to_basic_gates()))
    return f


def j_tensor(sim, zx, size):
    if sim.flag():
        c = circ(sim, size, 'a', None, 3)
        return lambda: show_array(keep(c.copy().to_matrix()))
    if sim.flag():
        # a few small boxes side by side: the kinds, sizes and labels most likely to meet those of another job
        from fractions import Fraction
        VT = zx.VertexType
        g = zx.Graph()
        outs = []
        for i in range(sim.between(1, 3)):
            t = sim.pick([VT.H_BOX, VT.H_BOX, VT.Z, VT.X, VT.Z_BOX])
            p = sim.pick([Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 4)])
            v = g.add_vertex(t, i, 1, None if t == VT.Z_BOX else p)
            if t == VT.Z_BOX:
                zx.utils.set_z_box_label(g, v, [1, -1, 2, 0.5j][sim.choose(4)])
            for _ in range(sim.between(0, 3)):
                outs.append(g.add_vertex(VT.BOUNDARY, len(outs), 2))
                g.add_edge((v, outs[-1]), sim.pick([zx.EdgeType.SIMPLE, zx.EdgeType.SIMPLE, zx.EdgeType.HADAMARD]))
        g.set_outputs(tuple(outs))
        return lambda: show_array(zx.tensorfy(g.copy(), preserve_scalar=True))
    g = gen.graph(sim, vmax=6, bmax=3, kind='t', types=('Z', 'X', 'H'))
    for v in g.inputs():
        g.set_row(v, 0)
    for v in g.outputs():
        g.set_row(v, 20)
    return lambda: show_array(zx.tensorfy(g.copy(), preserve_scalar=True))


def texts(sim, zx, size):
    fmt = sim.pick(['qasm', 'qc', 'quipper', 'qasm3'])
    c = circ(sim, size, 't', TEXT_MENU if fmt != 'quipper' else [m for m in TEXT_MENU if m != 'SWAP'])
    t = c.to_qasm(3) if fmt == 'qasm3' else getattr(c, 'to_' + fmt)()
    if fmt == 'qasm' and sim.flag(0.4):
        t = t.replace('include "qelib1.inc";', 'include "qelib1.inc";\ngate foo a,b { cx a,b; h a; }\ngate bar a { t a; }')
        if c.qubits >= 2:
            t += 'foo q[0],q[1];\nbar q[1];\n'
    if sim.flag(0.2):
        t = t.replace('h ', 'hh ', 1)          # not a gate: must be refused in every thread
    return fmt, t


def j_parse(sim, zx, size):
    fmt, t = texts(sim, zx, size)
    fn = getattr(zx.Circuit, 'from_' + fmt.replace('qasm3', 'qasm'))
    return lambda: show_circ(keep(fn(t)))


def j_print(sim, zx, size):
    c = circ(sim, size, 't', CT + ['SWAP', 'TOF', 'CCZ'])
    return lambda: c.copy().to_qasm() + c.copy().to_qc() + c.copy().to_basic_gates().to_quipper()


def j_equal(sim, zx, size):
    a = circ(sim, size * 0.7, 't', CT, 3)
    b = a.copy() if sim.flag(0.6) else circ(sim, size * 0.7, 't', CT, 3)
    if b.qubits != a.qubits:
        b = a.copy()
    if sim.flag(0.4):
        gen.add_gate(sim, b, 'T', b.qubits, 't')
    tens = sim.flag(0.3)
    if tens:
        return lambda: str(zx.compare_tensors(a.copy(), b.copy()))
    return lambda: str(a.copy().verify_equality(b.copy()))


def j_poly(sim, zx, size):
    ts = [sim.pick(POLYS) for _ in range(sim.between(1, 3))]

    def f():
        from pyzx.symbolic import parse, new_var
        types = {}
        out = []
        for t in ts:
            try:
                def nv(n):
                    if n not in types:
                        types[n] = n in 'abc'
                    return new_var(n, types)
                p = parse(t, nv)
                out.append(str(p) + ' ' + str(p * p + p) + ' ' + str(p == p + 0))
            except Exception as e:
                out.append(type(e).__name__)
        return '|'.join(out)
    return f


def j_json(sim, zx, size):
    c = circ(sim, size, 'a')
    mode = sim.choose(2)

    def f():
        g = c.copy().to_graph()
        if mode:
            zx.simplify.full_reduce(g, quiet=True)
        h = keep(zx.Graph.from_json(g.to_json()))
        return show_graph(h) + g.to_json()
    return f


def j_tikz(sim, zx, size):
    c = circ(sim, size, 't')

    def f():
        t = zx.to_tikz(c.copy().to_graph(zh=True)) if hasattr(zx, 'to_tikz') else c.copy().to_graph().to_tikz()
        return t + show_graph(keep(zx.tikz.tikz_to_graph(t, warn_overlap=False)))
    return f


def j_linalg(sim, zx, size):
    n, m = sim.between(1, 7), sim.between(1, 7)
    if sim.flag(0.6):
        m = n
    d = [[sim.choose(2) for _ in range(m)] for _ in range(n)]
    what = sim.pick(['gauss', 'inverse', 'rank', 'nullspace', 'cnots', 'factor', 'solve', 'gaussx'])
    bs = sim.pick([6, 2, 3])
    b = [[sim.choose(2)] for _ in range(n)]

    def f():
        from pyzx.linalg import Mat2
        M = Mat2([list(r) for r in d])
        if what == 'gauss':
            r = M.gauss(full_reduce=True, blocksize=bs)
            keep(M)
            return '%s %s' % (r, M.data)
        if what == 'gaussx':
            X, Y = Mat2.id(n), Mat2.id(n)
            r = M.gauss(full_reduce=True, x=X, y=Y, blocksize=bs)
            return '%s %s %s %s' % (r, M.data, X.data, Y.data)
        if what == 'inverse':
            i = keep(M.inverse()) if n == m else None
            return str(i and i.data)
        if what == 'rank':
            return str(M.rank())
        if what == 'nullspace':
            return str([getattr(v, "data", v) for v in keep(M.nullspace())])
        if what == 'cnots':
            return str(keep(M.to_cnots(optimize=True))) if n == m and M.rank() == n else 'x'
        if what == 'factor':
            a, c = M.factor()
            keep(a), keep(c)
            return '%s %s' % (a.data, c.data)
        s = M.solve(Mat2([list(r) for r in b]))
        return str(s and s.data)
    return f


def j_flow(sim, zx, size):
    c = circ(sim, size, 't', None, 3, 12)

    def f():
        g = c.copy().to_graph()
        zx.simplify.interior_clifford_simp(g, quiet=True)
        r = zx.gflow.gflow(g)
        for x in r or ():
            keep(x)
        return 'none' if r is None else '%s %s' % (sorted(r[0].items()), sorted((k, sorted(v)) for k, v in r[1].items()))
    return f


def j_stats(sim, zx, size):
    c = circ(sim, size, 't', CT + ['CCZ', 'TOF', 'SWAP'])

    def f():
        d = c.copy()
        g = d.to_graph()
        return keep(d.to_basic_gates()).stats(depth=True) + str(d.tcount()) + str(g.stats()) + show_circ(keep(d.split_phase_gates()))
    return f


def j_route(sim, zx, size):
    n = sim.pick([4, 4, 3, 5])
    arch = 'square' if n == 4 and sim.flag() else sim.pick(['line', 'circle', 'fully_connected'])
    ops = [(sim.choose(n), sim.choose(n - 1)) for _ in range(sim.between(1, 12))]

    def f():
        from pyzx.linalg import Mat2, CNOTMaker
        from pyzx.routing import create_architecture
        from pyzx.routing.cnot_mapper import gauss, ElimMode
        from pyzx.routing.parity_maps import CNOT_tracker
        a = create_architecture(arch, n_qubits=n)
        M = Mat2.id(n)
        for x, y in ops:
            M.row_add(x, y + (y >= x))
        t = CNOT_tracker(n)
        gauss(ElimMode.STEINER_MODE, M, a, full_reduce=True, y=t)
        return show_circ(keep(t)) + str(a.qubit_map)
    return f


def j_hbox(sim, zx, size):
    c = circ(sim, size * 0.6, 't', ['HAD', 'CNOT', 'CCZ', 'TOF', 'S', 'T'], 4)
    fn = sim.pick(['hpivot_simp', 'par_hbox_simp', 'hspider_simp', 'from_hypergraph_form', 'to_hypergraph_form', 'zh_simp', 'hsimplify'])

    def f():
        import pyzx.hsimplify as h
        g = c.copy().to_graph(zh=True)
        for name in (fn, 'hadamard_simp', 'par_hbox_simp'):
            k = getattr(h, name, None) or getattr(zx.hsimplify, name, None)
            if k is not None:
                try:
                    k(g, quiet=True)
                except TypeError:
                    k(g)
        return show_graph(g)
    return f


def j_diff(sim, zx, size):
    c = circ(sim, size, 't')

    def f():
        g = c.copy().to_graph()
        h = g.clone()
        zx.simplify.clifford_simp(h, quiet=True)
        from pyzx.graph.diff import GraphDiff
        d = GraphDiff(g, h)
        return d.to_json() + show_graph(keep(d.apply_diff(g)), False)
    return f


def j_decompose(sim, zx, size):
    c = circ(sim, size * 0.6, 't', ['T', 'CNOT', 'HAD', 'CZ'], 3)
    st = ''.join(sim.pick(['0', '1', '+', '-']) for _ in range(c.qubits))

    def f():
        g = c.copy().to_graph()
        g.apply_state(st)
        g.apply_effect('0' * c.qubits)
        zx.simplify.full_reduce(g, quiet=True)
        if zx.simplify.tcount(g) > 6:
            return show_graph(g)
        gs = zx.simulate.find_stabilizer_decomp(g)
        tot = sum(x.scalar.to_number() for x in gs)
        return str(np.round(tot, 6) + 0)      # which terms is random, their sum is not
    return f


def j_compose(sim, zx, size):
    a, b = circ(sim, size * 0.5, 't', None, 3), circ(sim, size * 0.5, 't', None, 3)

    def f():
        g, h = a.copy().to_graph(), b.copy().to_graph()
        t = keep(g.tensor(h))
        u = keep(g.copy())
        u.compose(g.adjoint())
        return show_graph(t) + show_graph(u) + show_circ(keep(a.copy().tensor(b.copy()))) + show_circ(keep(a.copy() + keep(a.adjoint())))
    return f


def j_edit(sim, zx, size):
    ops = [(sim.choose(6), sim.choose(1000), sim.choose(1000), sim.choose(4)) for _ in range(int(25 * size))]
    be = sim.pick(['simple', 'multigraph'])

    def f():
        VT, ET = zx.VertexType, zx.EdgeType
        g = zx.Graph(be)
        for o, a, b, c in ops:
            vs = sorted(g.vertices())
            if o <= 1 or len(vs) < 2:
                g.add_vertex([VT.Z, VT.X, VT.Z, VT.H_BOX][c], a % 5, b % 7, Fraction(a % 8, 4))
                continue
            v, w = vs[a % len(vs)], vs[b % len(vs)]
            if o <= 3 and v != w:
                try:
                    g.add_edge((v, w), ET.SIMPLE if c < 2 else ET.HADAMARD)
                except ValueError:
                    pass
            elif o == 4:
                g.set_phase(v, Fraction(b % 8, 4))
                g.set_vdata(v, 'k', a)
            elif len(vs) > 4:
                g.remove_vertex(v)
        h = g.copy()
        return show_graph(g) + show_graph(h) + g.stats()
    return f


def j_scalar(sim, zx, size):
    ops = [(sim.choose(5), sim.pick(gen.TPH + gen.ODD)) for _ in range(8)]

    def f():
        from pyzx.graph.scalar import Scalar
        s = Scalar()
        for o, p in ops:
            if o == 0:
                s.add_phase(p)
            elif o == 1:
                s.add_power(3)
            elif o == 2:
                s.add_node(p)
            elif o == 3:
                s.add_phase_pair = getattr(s, 'add_phase_pair', None) or None
            else:
                s.add_spider_pair(p, p)
        d = s.copy()
        d.mult_with_scalar(s)
        return show_scalar(d) + s.to_json() + s.to_latex() + s.to_unicode() + str(np.round(complex(s.to_number()), 8))
    return f


def j_phasepoly(sim, zx, size):
    n = sim.between(2, 4)
    c = zx.Circuit(n)
    for _ in range(sim.between(2, 12)):
        gen.add_gate(sim, c, sim.pick(['CNOT', 'CNOT', 'ZPhase']), n, 't')

    def f():
        from pyzx.routing.phase_poly import PhasePoly
        from pyzx.routing import create_architecture
        p = PhasePoly.fromCircuit(c.copy())
        r = p.rec_gray_synth('steiner', create_architecture('line', n_qubits=n))
        return show_circ(keep(r[0]))
    return f


def j_editor(sim, zx, size):
    c = circ(sim, size * 0.6, 't')
    pick = sim.choose(1000)

    def f():
        from pyzx.editor_actions import operations
        g = c.copy().to_graph()
        names = sorted(operations)
        out = []
        for k in range(3):
            op = operations[names[(pick + 7 * k) % len(names)]]
            es = set(g.edges())
            vs = set(g.vertices())
            ms = op['matcher'](g, lambda v: v in vs) if op['type'] == 1 else op['matcher'](g, lambda e: e in es)
            out.append('%s %d' % (names[(pick + 7 * k) % len(names)], len(ms)))
            if ms:
                ms = list(ms)[:1] if not isinstance(ms, dict) else ms
                et, rv, re, iso = op['rule'](g, ms)
                g.add_edge_table(et)
                g.remove_edges(re)
                g.remove_vertices(rv)
        return '; '.join(out) + show_graph(g, False)
    return f


def j_d3(sim, zx, size):
    c = circ(sim, size, 't')

    def f():
        from pyzx.editor import graph_to_json
        return graph_to_json(c.copy().to_graph(), 30)
    return f


JOBS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('j_')}


# ---- seeded jobs: f() after seeding both process-wide generators -----------------------------------
def s_todd(sim, zx, size):
    n = sim.between(2, 4)
    c = zx.Circuit(n)
    for _ in range(sim.between(3, 16)):
        gen.add_gate(sim, c, sim.pick(['CNOT', 'T', 'CNOT', 'S', 'CZ', 'HAD']), n, 't')
    full = sim.flag()

    def f():
        from pyzx.optimize import phase_block_optimize
        if full:
            return show_circ(keep(zx.optimize.full_optimize(c.copy(), quiet=True)))
        return show_circ(phase_block_optimize(c.copy().to_basic_gates(), pre_optimize=True, quiet=True))
    return f


def s_generate(sim, zx, size):
    what = sim.pick(['CNOT_HAD_PHASE_circuit', 'cliffordT', 'cliffords', 'cliffordTmeas', 'cnots', 'phase_poly', 'phase_poly_approximate', 'phase_poly_from_gadgets', 'parity'])
    q, d = sim.between(2, 5), sim.between(1, 25)
    p = sim.pick([None, 0.1, 0.3])

    def f():
        z = zx.generate
        if what == 'CNOT_HAD_PHASE_circuit':
            return show_circ(keep(z.CNOT_HAD_PHASE_circuit(q, d, clifford=p is None)))
        if what in ('cliffordT', 'cliffordTmeas'):
            return show_graph(keep(getattr(z, what)(q, d, p_t=p)))
        if what == 'cliffords':
            return show_graph(keep(z.cliffords(q, d)))
        if what == 'cnots':
            return show_graph(keep(z.cnots(q, d)))
        if what == 'phase_poly':
            return show_circ(keep(z.phase_poly(q, 3, d)))
        if what == 'phase_poly_approximate':
            return show_circ(keep(z.phase_poly_approximate(q, d, 4)))
        if what == 'phase_poly_from_gadgets':
            r = z.phase_poly_from_gadgets(q, 2)
            return show_circ(keep(r)) if hasattr(r, 'gates') else str(sorted(str(k) for k in r.zphases.items()))
        return str(z.build_random_parity_map(q, d))
    return f


def s_search(sim, zx, size):
    c = gen.circuit(sim, 1, 3, 16, 't', None, gmin=3)
    how = sim.pick(['anneal', 'genetic'])
    it, n = sim.between(1, 8), sim.between(2, 4)

    def f():
        from pyzx.local_search.simulated_annealing import anneal
        from pyzx.local_search.genetic import GeneticOptimizer
        g = c.copy().to_graph()
        zx.simplify.full_reduce(g, quiet=True)
        try:
            if how == 'anneal':
                h, sc = anneal(g, iters=it, quiet=True, score=lambda x: x.num_edges())
                return show_graph(keep(h)) + str(sc)
            return show_graph(keep(GeneticOptimizer(score=lambda m: m.g_curr.num_edges()).evolve(g, n, 2, quiet=True)))
        except ZeroDivisionError:
            return 'no candidate'
    return f


def s_decompose(sim, zx, size):
    c = circ(sim, size * 0.6, 't', ['T', 'CNOT', 'HAD', 'CZ'], 3)
    st = ''.join(sim.pick(['0', '1', '+', '-']) for _ in range(c.qubits))
    how = sim.pick(['find', 'pick', 'gsum', 'gcf'])

    def f():
        g = c.copy().to_graph()
        g.apply_state(st)
        g.apply_effect('0' * c.qubits)
        zx.simplify.full_reduce(g, quiet=True)
        if not 0 < zx.simplify.tcount(g) <= 5:
            return show_graph(g)
        if how == 'find':
            return ' '.join(show_graph(keep(x)) for x in zx.simulate.find_stabilizer_decomp(g))
        gs = zx.simulate.replace_magic_states(g, True if how == 'pick' else 5 if how == 'gcf' else False)
        return ' '.join(show_graph(keep(x)) for x in gs.graphs)
    return f


def s_sample(sim, zx, size):
    c = circ(sim, size * 0.5, 't', ['T', 'CNOT', 'HAD', 'S'], 3)

    def f():
        g = c.copy().to_graph()
        g.apply_state('0' * c.qubits)
        zx.simplify.full_reduce(g, quiet=True)
        if zx.simplify.tcount(g) > 4:
            return show_graph(g)
        gs = zx.simulate.SumGraph([g])
        return str(gs.sample([0], amount=3, epsilon=0.5)) + str(gs.sample([0], {1: '0'} if c.qubits > 1 else None, 3, 0.5))
    return f


def s_route(sim, zx, size):
    n = sim.pick([4, 6])
    arch = sim.pick(['line', 'circle', 'square', 'fully_connected'] if n == 4 else ['line', 'circle'])
    ops = [(sim.choose(n), sim.choose(n - 1)) for _ in range(sim.between(2, 12))]
    pop = sim.pick([4, 6])

    def f():
        from pyzx.routing import create_architecture
        from pyzx.routing.cnot_mapper import permuted_gauss, ElimMode
        from pyzx.linalg import Mat2
        a = create_architecture(arch, n_qubits=n)
        M = Mat2.id(n)
        for x, y in ops:
            M.row_add(x, y + (y >= x))
        perm, c, rank = permuted_gauss(M, ElimMode.STEINER_MODE, architecture=a, population_size=pop, crossover_prob=0.8, mutate_prob=0.2, n_iterations=2)
        return show_circ(keep(c)) + str([list(map(int, x)) if hasattr(x, '__iter__') else int(x) for x in perm])
    return f


def s_gray(sim, zx, size):
    n = sim.between(2, 5)
    c = zx.Circuit(n)
    for _ in range(sim.between(2, 12)):
        gen.add_gate(sim, c, sim.pick(['CNOT', 'CNOT', 'ZPhase']), n, 't')
    rh, sh = sim.pick(['RECURSIVE', 'RANDOM', 'EXHAUSTIVE', 'ARITY']), sim.pick(['RANDOM', 'COUNT', 'ARITY'])

    def f():
        from pyzx.routing.phase_poly import PhasePoly, RootHeuristic, SplitHeuristic
        from pyzx.routing.cnot_mapper import ElimMode
        from pyzx.routing import create_architecture
        p = PhasePoly.fromCircuit(c.copy())
        r = p.rec_gray_synth(ElimMode.STEINER_MODE, create_architecture('line', n_qubits=n), root_heuristic=RootHeuristic[rh], split_heuristic=SplitHeuristic[sh])
        return show_circ(keep(r[0]))
    return f


def s_arch(sim, zx, size):
    n = sim.between(3, 8)
    what = sim.pick(['hamiltonian', 'tree'])
    dens = sim.pick([0.1, 0.5])

    def f():
        from pyzx.routing import architecture as A
        a = getattr(A, 'create_dynamic_density_%s_architecture' % what)(n, density_prob=dens)
        return show_graph(a.graph, False)
    return f


SEEDED = {k[2:]: v for k, v in list(globals().items()) if k.startswith('s_')}


def make_seeded(sim, zx, size=1):
    name = sim.pick(sorted(SEEDED))
    return name, SEEDED[name](sim, zx, size)
