"""P06: local search returns an equivalent diagram for every stream of random draws, and searches do not influence each other."""
from .. import gen, seams
from ..seams import quiet_order
from ..semantics import graph_tensor, same

ID = 'P06'
QUICK_RUNS = 3500
THOROUGH_RUNS = 150_000
RUN_TIMEOUT = 20
RULE = ('A run draws a reduced or graph-like diagram and runs simulated annealing, genetic search, or a walk of single random pivots and '
        'local complementations under an adversarial random stream (extreme values, boundary draws) and enumeration orders; tensors are '
        'compared up to a scalar, arguments against snapshots, the returned diagram against the best score handed out, and a repeated '
        'search against its first execution. Non-trivial: at least one random move was made.')
REAL = 'local_search, simplify, extract, optimize, rules, graph backends'


def invariant(g):
    with quiet_order():
        deg = {v: (int(g.type(v)), str(g.phase(v)), g.vertex_degree(v)) for v in g.vertices()}
        es = sorted((tuple(sorted((deg[a], deg[b]))), int(et)) for (a, b), et in
                    ((g.edge_st(e), g.edge_type(e)) for e in g.edges()))
        return hash((tuple(sorted(deg.values())), tuple(es)))


def start(sim, zx, graphlike_only=False):
    kind = sim.pickw([('t', 4), ('c', 2), ('a', 2)])
    menu = sim.pick([None, ['CNOT', 'HAD', 'T'], ['CZ', 'HAD', 'ZPhase'], ['CNOT', 'HAD', 'S', 'T', 'CZ']])
    if kind == 'c' and menu:
        menu = [m for m in menu if m != 'T']
    c = gen.circuit(sim, 1, sim.pick([2, 3, 4]), sim.pick([8, 16, 30]), kind, menu, gmin=2)
    g = c.to_graph(zh=False)
    gen.perturb_history(sim, g)
    pre = sim.pick(['full_reduce', 'to_graph_like', 'interior_clifford_simp', 'clifford_simp'])
    if graphlike_only and pre == 'to_graph_like' and sim.flag():
        pre = 'full_reduce'
    f = getattr(zx.simplify, pre)
    f(g) if pre == 'to_graph_like' else f(g, quiet=True)
    sim.log('start %s after %s: %s' % (gen.circ_text(c)[:300], pre, gen.describe(g, 12)))
    return g


def run(sim):
    import numpy as np
    import random
    import pyzx as zx
    from pyzx.local_search.simulated_annealing import anneal
    from pyzx.local_search.genetic import GeneticOptimizer
    from pyzx.local_search import congruences, scores, genetic
    sim.swarm()
    mode = sim.pickw([('walk', 4), ('anneal', 4), ('genetic', 3), ('repeat', 2)])
    if mode == 'repeat':
        sim.p_order = sim.p_graph = sim.p_rng = 0.0
    g = start(sim, zx)
    with quiet_order():
        want = graph_tensor(g)
        before = gen.canon(g)
    sim.log(mode)
    sim.cover(mode)

    def check(h, what):
        with quiet_order():
            d = same(want, graph_tensor(h), True)
        if d:
            sim.fail('meaning changed', '%s: %s\n%s' % (what, d, gen.describe(h)), key='meaning changed by ' + what)

    def unchanged(what):
        with quiet_order():
            if gen.canon(g) != before or same(want, graph_tensor(g)):
                sim.fail('argument modified', what + ' changed the diagram it was given', key='argument modified by ' + what)

    empty = (ZeroDivisionError,)     # "no candidate left": the documented assumption of the random moves

    def candidates(h):
        """is there anything the moves could act on?"""
        with quiet_order():
            zs = [v for v in h.vertices() if h.type(v) == 1]
            piv = any(h.type(a) == 1 and h.type(b) == 1 for a, b in (h.edge_st(e) for e in h.edges()))
            lc = any(h.vertex_degree(v) >= 2 and all(h.type(n) == 1 for n in h.neighbors(v)) for v in zs)
        return piv, lc

    if mode == 'walk':
        h = g.copy()
        for _ in range(sim.between(1, 8)):
            piv, lc = candidates(h)
            op = sim.pick(['pivot', 'lc', 'reduce'])
            if op == 'pivot' and piv:
                congruences.apply_rand_pivot(h)
            elif op == 'lc' and lc:
                congruences.apply_rand_lc(h)
            elif op == 'reduce' and sim.flag(0.3):
                zx.full_reduce(h, quiet=True)
            else:
                continue
            sim.nontrivial = True
            sim.tick()
            sim.cover('move:' + op)
            if h.num_vertices() > 60:
                break
            check(h, op)
        unchanged('a walk on a copy')
        sim.log('end ' + gen.describe(h, 12))
        return
    seen = {}

    def note(gr, s):
        seen.setdefault(invariant(gr), []).append(s)
        return s

    def do_anneal(g, iters):
        def score(h):
            sim.tick()
            # (scoring without simplification asks the extractor for diagrams it does not promise to handle)
            return note(h, scores.g_wgc(h, g_simplify=True, c_simplify=sim_csimp) if sim_simplify else h.num_edges())
        return anneal(g, iters=iters, temp=temp, cool=cool, score=score, full_reduce_prob=frp, reset_prob=rsp, quiet=True)[0]

    def do_genetic(g, n, gens, actions=None):
        def score(m):
            sim.tick()
            return note(m.g_curr, genetic.default_score(m))
        opt = GeneticOptimizer(score=score) if actions is None else GeneticOptimizer(actions, score)
        return opt.evolve(g, n, gens, quiet=True)

    sim_simplify, sim_csimp = sim.flag(0.5), sim.flag(0.7)
    temp = sim.pick([25, 0, 5, 1000])
    cool = sim.pick([0.005, 0.2, 0.9])
    frp, rsp = sim.pick([0.1, 0.0, 0.5, 1.0]), sim.pick([0.0, 0.3, 1.0])
    try:
        if mode == 'anneal':
            h = do_anneal(g, sim.between(1, 10))
        elif mode == 'genetic':
            acts = sim.pick([None, [genetic.rand_pivot], [genetic.rand_lc, genetic.rand_pivot]])
            keep = list(acts) if acts is not None else None
            h = do_genetic(g, sim.between(2, 4), sim.between(1, 3), acts)
            if acts is not None and acts != keep:
                sim.fail('argument modified', 'the list of actions was reordered by the search', key='actions reordered')
        else:
            which = sim.pick(['genetic', 'anneal'])
            n, k = sim.between(2, 4), sim.between(1, 3)
            it = sim.between(1, 8)
            f = (lambda x: do_genetic(x, n, k)) if which == 'genetic' else (lambda x: do_anneal(x, it))
            gg = g.copy()
            other = start(sim, zx)

            def both(x):
                seams.install_rng(sim.rng_seed + 1)
                try:
                    return f(x), random.random(), float(np.random.rand())
                except empty:
                    return None
            a = both(gg)
            for _ in range(sim.between(1, 2)):
                try:
                    f2 = sim.pick([lambda x: do_genetic(x, 3, 2), lambda x: do_anneal(x, 4)])
                    seams.install_rng(sim.choose(1000))
                    f2(other)
                except empty:
                    pass
            b = both(gg)
            if (a is None) != (b is None) or (a and (gen.canon(a[0]) != gen.canon(b[0]) or a[1:] != b[1:])):
                sim.fail('search depends on earlier searches', which, key='search depends on earlier searches: ' + which)
            sim.nontrivial = bool(seen)
            unchanged(which)
            if a:
                check(a[0], which)
                check(b[0], which)
            return
    except empty:
        sim.cover('no-candidate')
        unchanged(mode)
        return
    sim.nontrivial = True
    unchanged(mode)
    check(h, mode)
    got = seen.get(invariant(h))
    best = min(s for ss in seen.values() for s in ss)
    if got is None:
        sim.fail('unscored diagram returned', mode)
    if min(got) > best:
        sim.fail('best diagram not returned', '%s found score %s but returned one scored %s' % (mode, best, got), key='best not returned by ' + mode)
    sim.log('end score %s %s' % (best, gen.describe(h, 12)))
