"""P03: strategies terminate in the promised form, are idempotent and never add non-Clifford phases."""
from .. import gen
from ..seams import quiet_order

ID = 'P03'
QUICK_RUNS = 8000
THOROUGH_RUNS = 400_000
RUN_TIMEOUT = 20
RULE = ('A run builds a diagram, draws an order profile and runs one strategy to completion (or drains its incremental form), '
        'then checks the promised normal form with predicates written in this file, runs the strategy again under further '
        'order decisions and requires no change, counting non-Clifford phases throughout. Runs over the step budget are '
        'reported as lack of progress. Non-trivial: the first run changed the diagram.')
REAL = 'graph backends, rules, simplify'


def nonclifford(g):
    n = 0
    for v in g.vertices():
        p = g.phase(v)
        if int(g.type(v)) in (1, 2) and (2 * p) % 1 != 0:
            n += 1
    return n


def pauli(g, v):
    return g.phase(v) in (0, 1)


class Form:
    """Predicates over a graph; return None or a description of what is left over."""
    def __init__(self, g):
        self.g = g
        self.vs = list(g.vertices())
        self.ty = {v: int(g.type(v)) for v in self.vs}
        self.nb = {v: list(g.neighbors(v)) for v in self.vs}

    def et(self, a, b):
        return int(self.g.edge_type(self.g.edge(a, b)))

    def spiders_fused(self):
        for v in self.vs:
            for w in self.nb[v]:
                if self.ty[v] == self.ty[w] != 0 and self.et(v, w) == 1:
                    return 'spiders %s and %s of the same colour share a plain wire' % (v, w)

    def no_ids(self):
        for v in self.vs:
            if self.ty[v] in (1, 2) and self.g.phase(v) == 0 and len(self.nb[v]) == 2:
                return 'identity spider %s is left' % v

    def interior_h(self, v, bound=0):
        """Z spider whose wires to spiders are all Hadamard and to Z spiders, with at most `bound` boundary wires"""
        if self.ty[v] != 1:
            return False
        nb = 0
        for w in self.nb[v]:
            if self.ty[w] == 0:
                nb += 1
            elif self.ty[w] != 1 or self.et(v, w) != 2:
                return False
        return nb <= bound

    def no_lcomp(self):
        for v in self.vs:
            if self.interior_h(v) and self.g.phase(v) * 2 % 2 == 1:
                return 'interior spider %s has phase %s' % (v, self.g.phase(v))

    def no_pivot(self):
        for v in self.vs:
            if self.ty[v] != 1 or not pauli(self.g, v) or not self.interior_h(v, 1):
                continue
            bv = sum(self.ty[w] == 0 for w in self.nb[v])
            for w in self.nb[v]:
                if self.ty[w] == 1 and pauli(self.g, w) and self.interior_h(w, 1):
                    if bv + sum(self.ty[x] == 0 for x in self.nb[w]) <= 1:
                        return 'adjacent Pauli spiders %s and %s are left' % (v, w)

    def hub(self, v):
        return any(len(self.nb[w]) == 1 and self.ty[w] == 1 for w in self.nb[v])

    def no_boundary_pivot(self):
        for v in self.vs:
            if not (self.interior_h(v) and pauli(self.g, v)) or self.hub(v):
                continue
            for w in self.nb[v]:
                if self.ty[w] == 1 and self.interior_h(w, 1) and not self.interior_h(w):
                    return 'interior Pauli spider %s next to boundary spider %s is left' % (v, w)

    def no_gadget_pivot(self):
        for v in self.vs:
            if not (self.interior_h(v) and pauli(self.g, v)) or self.hub(v):
                continue
            for w in self.nb[v]:
                if self.interior_h(w) and not pauli(self.g, w):
                    return 'interior Pauli spider %s next to interior spider %s is left' % (v, w)

    def gadgets_merged(self):
        seen = {}
        hubs = set()
        for v in self.vs:
            if self.ty[v] == 1 and (2 * self.g.phase(v)) % 1 != 0 and len(self.nb[v]) == 1:
                h = self.nb[v][0]
                if self.ty[h] != 1 or not pauli(self.g, h):
                    continue
                if h in hubs or sum(len(self.nb[w]) == 1 for w in self.nb[h]) > 1:
                    continue
                hubs.add(h)
                key = frozenset(w for w in self.nb[h] if w != v)
                if key in seen:
                    return 'two phase gadgets on the same spiders %s' % sorted(key)
                seen[key] = h

    def all_green(self):
        for v in self.vs:
            if self.ty[v] == 2:
                return 'X spider %s is left' % v

    def boundaries_ok(self):
        for v in self.vs:
            if self.ty[v] == 0 and len(self.nb[v]) != 1:
                return 'boundary %s has %d wires' % (v, len(self.nb[v]))

    def clifford_done(self):
        """for Clifford diagrams: nothing is left in the interior"""
        for v in self.vs:
            if self.ty[v] == 1 and not any(self.ty[w] == 0 for w in self.nb[v]):
                bs = [sum(self.ty[x] == 0 for x in self.nb[w]) for w in self.nb[v]]
                if bs and min(bs) < 2:
                    return 'interior spider %s is left in a Clifford diagram' % v

    def red_green(self):
        """bipartite-style form of to_rg: no Hadamard between two spiders is not promised; only same colour rule"""
        return None


INTERIOR = ['spiders_fused', 'no_ids', 'no_lcomp', 'no_pivot', 'all_green', 'boundaries_ok']
CLIFF = INTERIOR + ['no_boundary_pivot']
FULL = CLIFF + ['no_gadget_pivot', 'gadgets_merged']
FORMS = {
    'full_reduce': FULL, 'clifford_simp': CLIFF, 'interior_clifford_simp': INTERIOR, 'spider_simp': ['spiders_fused'], 'id_simp': ['no_ids'],
    'pivot_simp': ['no_pivot'], 'lcomp_simp': ['no_lcomp'], 'gadget_simp': ['gadgets_merged'],
    'reduce_scalar': ['spiders_fused', 'no_ids', 'no_pivot', 'no_lcomp', 'no_gadget_pivot', 'gadgets_merged'],
    'pivot_gadget_simp': [], 'pivot_boundary_simp': [], 'supplementarity_simp': [], 'copy_simp': [], 'phase_free_simp': [], 'to_gh': ['all_green'],
    'full_reduce_iter': FULL, 'clifford_iter': CLIFF, 'interior_clifford_iter': INTERIOR,
}
FROM_GH = {'reduce_scalar', 'pivot_simp', 'pivot_gadget_simp', 'pivot_boundary_simp', 'lcomp_simp', 'gadget_simp', 'supplementarity_simp', 'copy_simp'}
SMALL = [n for n in FORMS if not n.endswith('_iter')]


def structure(g):
    with quiet_order():
        vs = {v: (int(g.type(v)), g.phase(v)) for v in g.vertices()}
        es = sorted((tuple(sorted(g.edge_st(e))), int(g.edge_type(e))) for e in g.edges())
        return vs, es


def run(sim):
    import pyzx as zx
    sim.swarm()
    kind = sim.pickw([('t', 5), ('c', 3), ('a', 2)])
    big = sim.flag(0.3)
    g, shape = gen.any_diagram(sim, kind, qmax=8 if big else 4, gmax=120 if big else 30, vmax=24 if big else 9)
    gen.perturb_history(sim, g)
    sim.log('diagram %s %s' % (shape, gen.describe(g, 14)))
    name = sim.pickw([('full_reduce', 8), ('clifford_simp', 4), ('interior_clifford_simp', 3), ('full_reduce_iter', 2), ('clifford_iter', 1),
                      ('interior_clifford_iter', 1), ('reduce_scalar', 2)] + [(n, 1) for n in SMALL])
    if name in FROM_GH:
        zx.simplify.to_gh(g)
        zx.simplify.spider_simp(g, quiet=True)
    t0 = nonclifford(g)

    def go():
        f = getattr(zx.simplify, name)
        if name.endswith('_iter'):
            h = g
            n = 0
            for h, step in f(g):
                n += 1
                sim.tick()
                if n > 5000:
                    sim.fail('no-progress', '%s still yielding after 5000 rewrites' % name)
            return h
        stats = zx.simplify.Stats()
        if name == 'to_gh':
            f(g)
        else:
            f(g, quiet=True, stats=stats)
        k = sum(stats.num_rewrites.values())
        sim.tick(k)
        for r, c in stats.num_rewrites.items():
            sim.cover('rule:' + r, c)
        return g
    before = structure(g)
    sim.log('strategy ' + name)
    g = go()
    with quiet_order():
        after = structure(g)
        if after != before:
            sim.nontrivial = True
        t1 = nonclifford(g)
        if t1 > t0:
            sim.fail('non-Clifford phases added', '%s: %d -> %d' % (name, t0, t1), key='phases added by ' + name)
        F = Form(g)
        for p in FORMS[name] + (['clifford_done'] if kind == 'c' and name in ('full_reduce', 'clifford_simp') else []):
            d = getattr(F, p)()
            if d:
                sim.fail('form not reached', '%s: %s\n%s' % (name, d, gen.describe(g)), key='form %s after %s' % (p, name))
    g = go()
    again = structure(g)
    if again != after:
        with quiet_order():
            sim.fail('not idempotent', 'second %s still changed the diagram\n%s' % (name, gen.describe(g)), key='not idempotent ' + name)
    sim.log('final ' + gen.describe(g, 14))
