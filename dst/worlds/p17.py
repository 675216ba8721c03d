"""P17: a simplification interrupted at a rewrite boundary leaves a correct diagram from which it can go on."""
import sys

from .. import gen
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_tensor, same

ID = 'P17'
QUICK_RUNS = 6000
THOROUGH_RUNS = 300_000
RUN_TIMEOUT = 20
RULE = ('A run draws a diagram and a strategy and interrupts it once or more: the caller stops an incremental run (or throws into it), a filter raises on its '
        'n-th call, the statistics callback, the progress output or a score function raises - ordinary exceptions, KeyboardInterrupt and broken pipes. '
        'After every interruption the diagram must be well formed with the original tensor (including the scalar; up to a scalar for H-box strategies), '
        'arguments of strategies that return a new diagram untouched; then work resumes with the same or another strategy, to completion, and for circuits '
        'extraction must give the original unitary. Non-trivial: at least one interruption fired after a rewrite was applied or the filter was consulted.')
REAL = 'simplify, hsimplify, rules, hrules, local search, extract, graph backends'
STUB = 'order, standard output (may fail), the callbacks'
ASSUME = ['An interruption inside a rewrite (an asynchronous exception) is outside the property.',
          'Extraction is promised after a reduction that ran to completion, not directly after an interruption.']


class Stop(Exception):
    pass


class Hard(BaseException):
    pass


class Out:
    """Standard output that breaks at its n-th write."""
    def __init__(self, n, exc):
        self.n, self.exc, self.writes = n, exc, 0

    def write(self, s):
        self.writes += 1
        if self.n and self.writes == self.n:
            raise self.exc
        return len(s)

    def flush(self):
        pass


FILTERED = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'spider_simp', 'id_simp', 'pivot_simp', 'pivot_gadget_simp', 'pivot_boundary_simp',
            'lcomp_simp', 'gadget_simp']
UNFILTERED = ['reduce_scalar', 'bialg_simp', 'phase_free_simp', 'supplementarity_simp', 'copy_simp']
ITERS = ['full_reduce_iter', 'clifford_iter', 'interior_clifford_iter', 'spider_iter', 'id_iter', 'pivot_iter', 'lcomp_iter', 'pivot_gadget_iter',
         'gadget_iter', 'pivot_boundary_iter', 'bialg_iter']
GH = {'reduce_scalar', 'pivot_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp', 'copy_simp',
      'pivot_iter', 'lcomp_iter', 'pivot_gadget_iter', 'gadget_iter', 'pivot_boundary_iter'}
HSIMPS = ['zh_simp', 'hpivot_simp', 'par_hbox_simp', 'par_hbox_intro_simp', 'copy_simp', 'hspider_simp', 'hbox_parallel_not_remove_simp', 'hadamard_simp']
HFILTER = {'par_hbox_simp', 'par_hbox_intro_simp', 'copy_simp', 'hspider_simp', 'hbox_parallel_not_remove_simp', 'hadamard_simp'}


def wellformed(g, ins, outs):
    vs = list(g.vertices())
    S = set(vs)
    if len(S) != len(vs) or g.num_vertices() != len(vs):
        return 'vertices enumerated twice or miscounted'
    es = list(g.edges())
    if g.num_edges() != len(es):
        return 'num_edges is %d for %d edges' % (g.num_edges(), len(es))
    nb = {v: [] for v in vs}
    for e in es:
        a, b = g.edge_st(e)
        if a not in S or b not in S:
            return 'edge %s leads to a vertex that is not there' % (e,)
        if int(g.edge_type(e)) not in (1, 2, 3):
            return 'edge %s has type %s' % (e, g.edge_type(e))
        nb[a].append(b)
        nb[b].append(a)
    for v in vs:
        if set(g.neighbors(v)) != set(nb[v]):
            return 'neighbours of %s do not match the edges' % v
        t = int(g.type(v))
        g.phase(v), g.row(v), g.qubit(v)
        if t == 0 and len(nb[v]) != 1:
            return 'boundary %s has %d wires' % (v, len(nb[v]))
    if tuple(g.inputs()) != ins or tuple(g.outputs()) != outs:
        return 'inputs or outputs changed'
    for v in ins + outs:
        if v not in S or int(g.type(v)) != 0:
            return 'input or output %s is not a boundary' % v


def run(sim):
    import pyzx as zx
    sim.swarm()
    s = zx.simplify
    mode = sim.pickw([('filter', 5), ('iter', 4), ('stats', 4), ('output', 3), ('hbox', 3), ('new', 3)])
    kind = sim.pickw([('t', 5), ('c', 3), ('a', 2)])
    c = None
    if mode == 'hbox':
        n = sim.between(2, 4)
        c = zx.Circuit(n)
        for _ in range(sim.between(1, 7)):
            gen.add_gate(sim, c, sim.pick(['CCZ', 'TOF', 'HAD', 'CNOT', 'CZ', 'NOT', 'S', 'T', 'Z']), n, kind)
        g = c.to_graph(zh=True)
    elif sim.flag(0.5):
        menu = sim.pick([None, ['CNOT', 'HAD', 'T'], ['CZ', 'HAD', 'ZPhase'], ['CNOT', 'CZ', 'SWAP', 'HAD', 'S', 'T']])
        if kind == 'c' and menu:
            menu = [m for m in menu if m != 'T']
        c = gen.circuit(sim, 1, 4, sim.pick([10, 30]), kind, menu, gmin=2)
        g = c.to_graph(zh=False)
    else:
        g, _ = gen.any_diagram(sim, kind)
    with quiet_order():
        U = circuit_unitary(c) if c is not None else None
        want = graph_tensor(g)
        ins, outs = tuple(g.inputs()), tuple(g.outputs())
    gen.perturb_history(sim, g)
    sim.log('%s: %s' % (mode, gen.describe(g, 14)))
    sim.cover('mode:' + mode)
    up = mode == 'hbox'

    def check(h, what):
        with quiet_order():
            d = wellformed(h, ins, outs)
            if d:
                sim.fail('malformed diagram', 'after %s: %s\n%s' % (what, d, gen.describe(h)), key='malformed after %s' % what)
            d = same(want, graph_tensor(h), up)
        if d:
            sim.fail('meaning changed', 'after %s: %s\n%s' % (what, d, gen.describe(h)), key='meaning changed by %s' % what)

    if mode == 'new':
        return new_diagram(sim, zx, g, check, c is not None)

    def prepare(name):
        if name in GH:
            s.to_gh(g)
            s.spider_simp(g, quiet=True)

    def exc():
        return sim.pick([Stop('stop'), KeyboardInterrupt(), Hard('stop'), StopIteration('stop'), ValueError('stop'), KeyError('stop')])

    for _ in range(sim.pickw([(1, 5), (2, 3), (4, 1)])):
        E = exc()
        hit = [0]
        fired = False
        if mode == 'filter':
            name = sim.pickw([('full_reduce', 4), ('clifford_simp', 2)] + [(x, 1) for x in FILTERED] + [('to_rg', 1)])
            prepare(name)
            at = sim.pick([1 + sim.choose(10), 1 + sim.choose(60), 1 + sim.choose(300)])
            odd = sim.pick([0, 0, 2, 3])

            def f(x):
                hit[0] += 1
                if hit[0] == at:
                    raise E
                return not odd or hit[0] % odd == 0
            try:
                if name == 'to_rg':
                    s.to_rg(g, select=f)
                else:
                    getattr(s, name)(g, matchf=f, quiet=True)
            except BaseException as e:
                if e is not E and not (isinstance(E, StopIteration) and e.__cause__ is E):
                    raise
                fired = True
            what = 'a filter stopping %s' % name
        elif mode == 'iter':
            name = sim.pickw([('full_reduce_iter', 5), ('clifford_iter', 2)] + [(x, 1) for x in ITERS])
            prepare(name)
            at = sim.between(1, sim.pick([6, 30]))
            how = sim.pick(['drop', 'close', 'throw', 'body'])
            it = getattr(s, name)(g)
            try:
                for h, step in it:
                    hit[0] += 1
                    if h is not g:
                        sim.fail('incremental run left the diagram', name)
                    if hit[0] == at:
                        fired = True
                        if how == 'close':
                            it.close()
                        elif how == 'throw' and not isinstance(E, StopIteration):
                            it.throw(E)
                        elif how == 'body':
                            raise E
                        break
            except BaseException as e:
                if e is not E and e.__cause__ is not E:
                    raise
            what = 'abandoning %s' % name
            if how != 'drop':
                it = None
        elif mode == 'stats':
            name = sim.pickw([('full_reduce', 4), ('clifford_simp', 2)] + [(x, 1) for x in FILTERED + UNFILTERED])
            prepare(name)
            at = sim.between(1, sim.pick([3, 20]))

            class Count(s.Stats):
                def count_rewrites(self, rule, n):
                    hit[0] += 1
                    if hit[0] == at:
                        raise E
                    super().count_rewrites(rule, n)
            try:
                getattr(s, name)(g, quiet=True, stats=Count())
            except BaseException as e:
                if e is not E:
                    raise
                fired = True
            what = 'the statistics callback stopping %s' % name
        else:
            E = sim.pick([BrokenPipeError(32, 'Broken pipe'), OSError(28, 'No space left on device'), KeyboardInterrupt(), ValueError('I/O operation on closed file')])
            H = mode == 'hbox'
            if H:
                name = sim.pickw([('zh_simp', 4), ('hpivot_simp', 3)] + [(x, 1) for x in HSIMPS])
                fn = getattr(zx.hsimplify, name)
            else:
                name = sim.pickw([('full_reduce', 4), ('clifford_simp', 2)] + [(x, 1) for x in FILTERED + UNFILTERED])
                prepare(name)
                fn = getattr(s, name)
            at = sim.between(1, sim.pick([4, 12, 60]))
            out = sys.stdout
            kw = {}
            o = Out(at, E)
            if H and name in HFILTER and sim.flag(0.5):
                o = Out(0, E)

                def f(x):
                    hit[0] += 1
                    if hit[0] == at:
                        raise E
                    return True
                kw['matchf'] = f
            sys.stdout = o
            try:
                fn(g, quiet=False, **kw)
            except BaseException as e:
                if e is not E:
                    raise
                fired = True
            finally:
                sys.stdout = out
            hit[0] = max(hit[0], o.writes)
            what = 'a failing %s stopping %s' % ('filter' if kw else 'output', name)
        sim.tick(hit[0])
        sim.log('%s %s at %d of %d' % (what, type(E).__name__, at, hit[0]))
        if fired:
            sim.nontrivial = True
            sim.count_fault('%s interrupted' % mode)
            sim.cover('interrupted:' + name)
        check(g, what if fired else name)
    # resume
    then = sim.pick(['same', 'full_reduce', 'clifford_simp', 'interior_clifford_simp'])
    if mode == 'hbox':
        name = name if then == 'same' else sim.pick(HSIMPS)
        getattr(zx.hsimplify, name)(g, quiet=True)
        check(g, 'resuming with ' + name)
        return
    if then == 'same' and name.endswith('_iter'):
        for h, step in getattr(s, name)(g):
            sim.tick()
    elif then == 'same' and name == 'to_rg':
        s.to_rg(g)
    else:
        name = name if then == 'same' else then
        prepare(name)
        getattr(s, name)(g, quiet=True)
    check(g, 'resuming with ' + name)
    if c is not None:
        s.full_reduce(g, quiet=True)
        d = zx.extract.extract_circuit(g, quiet=True, up_to_perm=False)
        with quiet_order():
            m = same(U, circuit_unitary(d), True)
        if m:
            sim.fail('extraction after resuming', m, key='extraction after %s' % what)


def snapshot(zx, g):
    with quiet_order():
        return gen.canon(g), [v for v in g.vertices()], getattr(g, 'track_phases', None), repr(getattr(g, 'phase_master', None)), repr(sorted(getattr(g, 'phase_index', {}).items()))


def new_diagram(sim, zx, g, check, circuit):
    from pyzx.local_search.simulated_annealing import anneal
    from pyzx.local_search.genetic import GeneticOptimizer
    s = zx.simplify
    what = sim.pick(['teleport stats', 'teleport output', 'anneal', 'optimize'] + (['genetic'] if circuit else []))
    E = sim.pick([Stop('stop'), KeyboardInterrupt(), ValueError('stop')])
    at = 1 + sim.choose(sim.pick([3, 15]))
    hit = [0]

    def bump(*a):
        hit[0] += 1
        if hit[0] == at:
            raise E
    if what in ('anneal', 'genetic'):
        s.full_reduce(g, quiet=True)
    elif any(g.type(v) not in (0, 1, 2) for v in g.vertices()):
        return
    before = snapshot(zx, g)
    fired = False
    empty = (ZeroDivisionError,)
    out = sys.stdout
    try:
        if what == 'teleport stats':
            class Count(s.Stats):
                def count_rewrites(self, rule, n):
                    bump()
            s.teleport_reduce(g, quiet=True, stats=Count())
        elif what == 'teleport output':
            o = sys.stdout = Out(at, E)
            s.teleport_reduce(g, quiet=False)
        elif what == 'anneal':
            def score(h):
                bump()
                return h.num_edges()
            anneal(g, iters=8, score=score, quiet=True, full_reduce_prob=0.3)
        elif what == 'genetic':
            def score(m):
                bump()
                return m.g_curr.num_edges()
            GeneticOptimizer(score=score).evolve(g, 3, 2, quiet=True)
        else:
            c = zx.Circuit(3)
            for _ in range(sim.between(2, 20)):
                gen.add_gate(sim, c, sim.pick(['CNOT', 'T', 'HAD', 'CZ', 'S', 'NOT']), 3, 't')
            text = gen.circ_text(c)
            o = sys.stdout = Out(at, E)
            try:
                zx.optimize.basic_optimization(c, quiet=False) if sim.flag() else zx.optimize.full_optimize(c, quiet=False)
            finally:
                sys.stdout = out
                if gen.circ_text(c) != text:
                    sim.fail('argument modified', 'interrupted optimisation changed the circuit', key='argument modified: circuit')
    except empty:
        pass
    except BaseException as e:
        if e is not E:
            raise
        fired = True
    finally:
        sys.stdout = out
    sim.log('%s %s' % (what, 'interrupted' if fired else 'finished'))
    sim.cover('new:' + what)
    if fired:
        sim.nontrivial = True
        sim.count_fault('%s interrupted' % what)
    if snapshot(zx, g) != before:
        sim.fail('argument modified', '%s %s changed the diagram it was given' % ('interrupted' if fired else 'finished', what), key='argument modified by ' + what)
    check_now = what not in ('anneal', 'genetic')
    if check_now:
        check(g, what)
        h = s.teleport_reduce(g, quiet=True)
        with quiet_order():
            d = same(graph_tensor(g), graph_tensor(h), True)
        if d:
            sim.fail('meaning changed', 'repeating after %s: %s' % (what, d))
