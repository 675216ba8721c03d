"""P01: strategies preserve the linear map including the tracked scalar, in every matcher order."""
from .. import gen
from ..seams import quiet_order
from ..semantics import graph_tensor, same

ID = 'P01'
QUICK_RUNS = 8000
THOROUGH_RUNS = 400_000
RULE = ('A run builds a diagram (circuit, plugged circuit or arbitrary graph; Clifford, Clifford+T or other phases), draws a '
        'swarm profile for candidate/vertex/edge/neighbour order, and runs 1-3 strategies, comparing the tensor with the '
        'original after each (and after yielded steps of incremental runs). Non-trivial: at least one rewrite was applied.')
REAL = 'graph backends, rules, simplify, scalar'


def strategies(zx):
    s = zx.simplify
    d = {}
    for n in ('full_reduce', 'clifford_simp', 'interior_clifford_simp', 'reduce_scalar', 'spider_simp', 'id_simp', 'pivot_simp',
              'pivot_gadget_simp', 'pivot_boundary_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp', 'copy_simp',
              'bialg_simp', 'phase_free_simp', 'to_gh', 'to_rg', 'to_graph_like'):
        d[n] = getattr(s, n)
    return d


NEEDS_GH = {'reduce_scalar', 'copy_simp'}       # documented to assume it
LIKES_GH = {'pivot_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp'}
ITERS = ['full_reduce_iter', 'clifford_iter', 'interior_clifford_iter']


def tensors(g, subs):
    """The tensor, or those at sample values of the variables."""
    return [graph_tensor(g, subst=x) for x in subs or [None]]


def all_same(a, b, up, unknown=False):
    for x, y in zip(a, b):
        if unknown and abs(x).max() < 1e-9:
            continue    # the scalar that made the diagram zero is documented to be forgotten
        d = same(x, y, up)
        if d:
            return d
    return None


def incremental(sim, zx, name, g, subs):
    it = getattr(zx.simplify, name)(g)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return
        except NotImplementedError:
            if not subs:
                raise
            sim.cover('refused: symbolic ' + name)
            return
        yield x


def run(sim):
    import pyzx as zx
    sim.swarm()
    if sim.flag(0.02):
        return sqasm(sim, zx)
    kind = sim.pickw([('t', 5), ('c', 3), ('a', 2)])
    g, shape = gen.any_diagram(sim, kind)
    gen.perturb_history(sim, g)
    subs = gen.symbolise(sim, g) if sim.flag(0.12) else None
    if subs:
        sim.cover('symbolic')
    sim.log('diagram %s %s' % (shape, gen.describe(g, 14)))
    with quiet_order():
        want = tensors(g, subs)
    strat = strategies(zx)
    names = list(strat)

    def check(h, what, up=False):
        with quiet_order():
            d = all_same(want, tensors(h, subs), up or bool(subs) and h.scalar.is_unknown, h.scalar.is_unknown)
        if d:
            sim.fail('meaning changed', 'after %s: %s\n%s' % (what, d, gen.describe(h)), key='meaning changed by %s' % what)

    for _ in range(sim.between(1, 3)):
        mode = sim.pickw([('strategy', 10), ('iter', 3), ('teleport', 2), ('cliffnf', 1)])
        n0 = g.num_vertices(), g.num_edges()
        if mode == 'strategy':
            name = sim.pickw([('full_reduce', 6), ('clifford_simp', 4), ('reduce_scalar', 2)] + [(n, 1) for n in names])
            if (name in NEEDS_GH or name in LIKES_GH and sim.flag(0.6)) and not zx.simplify.is_graph_like(g):
                zx.simplify.to_gh(g)
                zx.simplify.spider_simp(g, quiet=True)
            if name == 'reduce_scalar' and (g.inputs() or g.outputs()):
                sim.cover('reduce_scalar-open')
            stats = zx.simplify.Stats()
            sim.log('strategy ' + name)
            try:
                strat[name](g, quiet=True, stats=stats)
            except TypeError:
                strat[name](g)
            except NotImplementedError:
                if not subs:
                    raise
                # some rules do not support symbolic phases, and say so
                sim.cover('refused: symbolic ' + name)
                check(g, name)
                return
            if stats.num_rewrites:
                sim.nontrivial = True
                sim.tick(sum(stats.num_rewrites.values()))
                for k, v in stats.num_rewrites.items():
                    sim.cover('rule:' + k, v)
            elif (g.num_vertices(), g.num_edges()) != n0:
                sim.nontrivial = True
            check(g, name)
        elif mode == 'iter':
            name = sim.pick(ITERS)
            sim.log('incremental ' + name)
            stop = sim.between(1, 60)
            for h, step in incremental(sim, zx, name, g, subs):
                if h is not g:
                    g = h
                sim.tick()
                sim.nontrivial = True
                sim.cover('yield:' + name)
                check(g, '%s step %s' % (name, step.rstrip('0123456789')))
                stop -= 1
                if stop == 0:
                    break
        elif mode == 'teleport':
            if any(g.type(v) not in (0, 1, 2) for v in g.vertices()):
                continue
            sim.log('teleport_reduce')
            with quiet_order():
                before = gen.canon(g)
            try:
                h = zx.teleport_reduce(g)
            except NotImplementedError:
                if not subs:
                    raise
                sim.cover('refused: symbolic teleport_reduce')
                continue
            with quiet_order():
                if gen.canon(g) != before:
                    sim.fail('argument modified', 'teleport_reduce changed its argument')
            sim.nontrivial = True
            sim.cover('rule:teleport')
            check(h, 'teleport_reduce', True)
            with quiet_order():
                want = tensors(h, subs)
            g = h
        else:
            if kind != 'c' or shape != 'circ':
                continue
            sim.log('to_clifford_normal_form_graph')
            h = g.copy()
            try:
                zx.simplify.to_clifford_normal_form_graph(h)
            except ValueError:
                if not subs:
                    raise
                sim.cover('refused: symbolic cliffnf')     # not a Clifford diagram
                continue
            sim.nontrivial = True
            sim.cover('rule:cliffnf')
            check(h, 'to_clifford_normal_form_graph')
    sim.log('final ' + gen.describe(g, 14))


def sqasm(sim, zx):
    """Spider-QASM: registers whose qubits start or end on a spider instead of a wire; read with and without simplification."""
    regs = []
    for i in range(sim.between(1, 3)):
        regs.append((sim.pick(['q', 'S', 'A', 'Z', 'w']) + sim.pick(['', 'x', 'yz']) + str(i), sim.between(1, 2)))
    qs = ['%s[%d]' % (r, j) for r, k in regs for j in range(k)]
    lines = ['qreg %s[%d];' % r for r in regs]
    for _ in range(sim.between(0, 14)):
        k = sim.pick(['h', 'x', 'z', 's', 't', 'rz', 'rx', 'cx', 'cz', 'ccz'])
        n = {'cx': 2, 'cz': 2, 'ccz': 3}.get(k, 1)
        if n > len(qs):
            continue
        ang = '(%s*pi/4)' % sim.choose(8) if k in ('rz', 'rx') else ''
        lines.append('%s%s %s;' % (k, ang, ', '.join(sim.shuffled(qs)[:n])))
    text = '\n'.join(lines)
    sim.log('sqasm ' + text.replace('\n', ' '))
    a = zx.sqasm(text, simplify=False)
    b = zx.sqasm(text)
    sim.nontrivial = True
    sim.cover('sqasm')
    with quiet_order():
        d = same(graph_tensor(a, True), graph_tensor(b, True), False)
        if d:
            sim.fail('meaning changed', 'sqasm(simplify=True): %s\n%s\n%s' % (d, gen.describe(a), gen.describe(b)), key='meaning changed by sqasm')
