"""P02: a scheduler plays a user who applies single rewrites in any order, with restrictions, limits and partial batches."""
from fractions import Fraction
from .. import gen
from ..seams import quiet_order
from ..semantics import graph_tensor, same
from .p01 import tensors, all_same

ID = 'P02'
QUICK_RUNS = 6000
THOROUGH_RUNS = 300_000
RULE = ('A run is a rewriting session: a random diagram, then up to 14 steps each drawing a rule (rules, basicrules, editor '
        'operation table), a search restriction, a match limit and a subset/order of the reported matches; the tensor is '
        'compared up to a scalar after every step. Non-trivial: at least one match was applied.')
REAL = 'rules, basicrules, editor_actions, hrules used by them, graph backend'


def is_zx(g):
    return all(int(g.type(v)) in (0, 1, 2) for v in g.vertices())


def graph_like(g):
    for v in g.vertices():
        if int(g.type(v)) not in (0, 1):
            return False
    for e in g.edges():
        s, t = g.edge_st(e)
        if int(g.type(s)) == 1 and int(g.type(t)) == 1 and int(g.edge_type(e)) != 2:
            return False
    return True


def any_(g):
    return True


def table(zx):
    """name -> (matcher, rewriter, needs, accepts_filter: 'e'|'v'|None, accepts_num, site(match)->vertices)"""
    r, ea = zx.rules, zx.editor_actions
    T = {}
    T['spider'] = (r.match_spider_parallel, r.spider, any_, 'e', True)
    T['id'] = (r.match_ids_parallel, r.remove_ids, any_, 'v', True)
    T['pivot'] = (r.match_pivot_parallel, r.pivot, any_, 'e', True)
    T['lcomp'] = (r.match_lcomp_parallel, r.lcomp, any_, 'v', True)
    T['bialg'] = (r.match_bialg_parallel, r.bialg, is_zx, 'e', True)
    T['z_to_z_box'] = (r.match_z_to_z_box_parallel, r.z_to_z_box, any_, 'v', True)
    T['pivot_gadget'] = (r.match_pivot_gadget, r.pivot, any_, 'e', True)
    T['pivot_boundary'] = (r.match_pivot_boundary, r.pivot, any_, 'v', True)
    T['gadget'] = (r.match_phase_gadgets, r.merge_phase_gadgets, any_, 'v', False)
    T['supplementarity'] = (r.match_supplementarity, r.apply_supplementarity, any_, 'v', False)
    T['copy'] = (r.match_copy, r.apply_copy, graph_like, 'v', False)
    for n, op in ea.operations.items():
        T['op:' + n] = (op['matcher'], op['rule'], any_, 'v' if op['type'] == ea.MATCHES_VERTICES else 'e', False)
    return T


def match_sites(name, m):
    """vertices a match names (best effort; used for the restriction check)"""
    if name in ('spider', 'op:spider', 'op:fuse_w', 'op:bialgebra'):
        return [m[0], m[1]]
    if name in ('pivot', 'op:pivot', 'pivot_gadget'):
        return [m[0][0], m[0][1]]
    if name in ('lcomp', 'op:lcomp', 'id', 'op:rem_id'):
        return [m[0]]
    if name in ('z_to_z_box', 'op:z_to_z_box', 'op:to_z', 'op:to_x', 'op:had2edge'):
        return [m]
    if name == 'bialg':
        return [m[0], m[1]]
    return None


def start(sim):
    shape = sim.pickw([('zx', 5), ('like', 4), ('h', 2), ('zbox', 1), ('w', 1)])
    kind = sim.pickw([('t', 4), ('c', 4), ('a', 1)])
    if shape == 'h':
        g = gen.graph(sim, vmax=8, bmax=4, kind=kind, types=('Z', 'H', 'X', 'Z'))
    elif shape == 'zbox':
        g = gen.graph(sim, vmax=7, bmax=4, kind=kind, types=('Z', 'ZB', 'X'))
    elif shape == 'w':
        g = gen.graph(sim, vmax=6, bmax=3, kind=kind, types=('Z', 'X'))
        gen.add_ws(sim, g)
    else:
        g, _ = gen.any_diagram(sim, kind, qmax=4, gmax=24, vmax=9)
    return g, shape


def run(sim):
    import pyzx as zx
    sim.swarm()
    if sim.flag(0.05):
        return gadgets(sim, zx)
    g, shape = start(sim)
    if shape == 'like':
        zx.simplify.to_gh(g)
        zx.simplify.spider_simp(g, quiet=True)
        if sim.flag(0.3):
            gen.motif(sim, g, 't')
    gen.perturb_history(sim, g)
    subs = gen.symbolise(sim, g) if sim.flag(0.15) else None
    if subs:
        sim.cover('symbolic')
    sim.log('start %s %s' % (shape, gen.describe(g, 14)))
    with quiet_order():
        want = tensors(g, subs)
    T = table(zx)
    for _ in range(sim.between(1, 14)):
        with quiet_order():
            zxonly, like = is_zx(g), graph_like(g)
        fam = sim.pickw([('rule', 7), ('basic', 3), ('unspider', 1), ('op', 4)])
        try:
            if fam == 'basic':
                what = basic(sim, zx, g, zxonly)
            elif fam == 'unspider':
                what = unspider(sim, zx, g)
            else:
                names = [n for n, t in T.items() if n.startswith('op:') == (fam == 'op')
                         and (t[2] is any_ or (zxonly if t[2] is is_zx else like))]
                for name in sim.shuffled(names)[:sim.pick([1, 8])]:
                    what = rule(sim, zx, g, T, name)
                    if what:
                        break
        except ValueError as e:
            if 'unreducible' in str(e) and not zxonly:
                sim.cover('simple backend cannot hold parallel H-box wires')
                return
            raise
        except NotImplementedError:
            if not subs:
                raise
            sim.cover('refused: symbolic')
            what = 'refused rule'
        if not what:
            continue
        sim.nontrivial = True
        sim.tick()
        with quiet_order():
            d = all_same(want, tensors(g, subs), True, g.scalar.is_unknown)
        if d:
            sim.fail('meaning changed', 'after %s: %s\n%s' % (what, d, gen.describe(g)), key='meaning changed by ' + what)
    sim.log('final ' + gen.describe(g, 14))


def gadgets(sim, zx):
    """Rewrites that act on whole groups of phase gadgets of a simplified circuit diagram."""
    n = sim.between(2, 5)
    c = zx.Circuit(n)
    for _ in range(sim.between(4, sim.pick([15, 40]))):
        k = sim.pickw([('par', 5), ('ph', 3), ('CZ', 1), ('HAD', 1), ('NOT', 1)])
        if k == 'par':
            c.add_gate('ParityPhase', Fraction(sim.choose(8), 4), *sim.shuffled(range(n))[:sim.between(2, n)])
        elif k == 'ph':
            c.add_gate('ZPhase', sim.choose(n), Fraction(sim.choose(8), 4))
        elif k == 'CZ':
            c.add_gate('CZ', *sim.shuffled(range(n))[:2])
        else:
            c.add_gate(k, sim.choose(n))
    g = c.to_graph()
    getattr(zx.simplify, sim.pick(['full_reduce', 'clifford_simp', 'full_reduce']))(g, quiet=True)
    gen.perturb_history(sim, g)
    sim.log('gadgets of %s: %s' % (gen.circ_text(c)[:300], gen.describe(g, 14)))
    with quiet_order():
        want = graph_tensor(g)
    for _ in range(sim.between(1, 3)):
        op = sim.pick(['gadget_phasepoly', 'todd_on_graph', 'full_reduce'])
        t0 = zx.simplify.tcount(g)
        if op == 'gadget_phasepoly':
            m = zx.rules.match_gadgets_phasepoly(g)
            if not m:
                continue
            if sim.flag():
                m = [sim.pick(m)]
            zx.rules.apply_gadget_phasepoly(g, m)
        elif op == 'todd_on_graph':
            zx.todd.todd_on_graph(g)
            if zx.simplify.tcount(g) > t0:
                sim.fail('T-count increased', 'todd_on_graph: %d to %d' % (t0, zx.simplify.tcount(g)))
        else:
            zx.simplify.full_reduce(g, quiet=True)
        sim.log(op)
        sim.cover(op)
        sim.nontrivial = True
        with quiet_order():
            d = same(graph_tensor(g), want, True)
        if d:
            sim.fail('meaning changed', 'after %s: %s\n%s' % (op, d, gen.describe(g)), key='meaning changed by ' + op)


def rule(sim, zx, g, T, name):
    match, rewrite, need, flt, num = T[name]
    kw = {}
    allowed = None
    filt_kind = sim.pickw([(None, 3), ('subset', 3), ('one', 2)]) if flt else None
    with quiet_order():
        vs = sorted(g.vertices())
        es = sorted(g.edges(), key=lambda e: tuple(sorted(g.edge_st(e))))
    pool = vs if flt == 'v' else [tuple(sorted(g.edge_st(e))) for e in es]
    f = None
    if filt_kind and pool:
        allowed = set(sim.subset(pool, 0.5) if filt_kind == 'subset' else [sim.pick(pool)])
        if flt == 'v':
            f = lambda v: v in allowed
        else:
            f = lambda e: tuple(sorted(g.edge_st(e))) in allowed
    elif name.startswith('op:'):
        f = lambda x: True
    lim = None
    if num and sim.flag(0.4):
        lim = kw['num'] = sim.between(0, 3) if sim.flag(0.2) else 1
    ms = match(g, f, **kw) if f is not None or filt_kind else match(g, **kw)
    if lim is not None and len(ms) > lim:
        sim.fail('limit ignored', '%s with num=%d returned %d matches' % (name, lim, len(ms)), key='limit ignored by ' + name)
    if allowed is not None:
        for m in ms:
            s = match_sites(name, m)
            if s is None:
                continue
            if flt == 'v' and s[0] not in allowed or flt == 'e' and tuple(sorted(s)) not in allowed:
                sim.fail('restriction ignored', '%s reported %s outside the search restriction' % (name, m),
                         key='restriction ignored by ' + name)
    if not ms:
        return None
    if sim.flag(0.35):
        keep = sim.subset(range(len(ms)), 0.5)
        keep = keep or [sim.choose(len(ms))]
        ms = [ms[i] for i in keep]
    if sim.flag(0.3):
        ms = sim.shuffled(ms)
    sim.log('%s x%d%s%s' % (name, len(ms), ' restricted' if allowed is not None else '', ' num=%s' % lim if lim is not None else ''))
    sim.cover(name, len(ms))
    etab, rv, re, iso = rewrite(g, ms)
    g.add_edge_table(etab)
    g.remove_edges(re)
    g.remove_vertices(rv)
    if iso:
        g.remove_isolated_vertices()
    return name


def basic(sim, zx, g, zxonly):
    b = zx.basicrules
    with quiet_order():
        vs = sorted(g.vertices())
    if not vs:
        return None
    name = sim.pick(['color_change', 'strong_comp', 'fuse', 'remove_id', 'copy_X', 'copy_Z', 'pi_commute_Z', 'pi_commute_X'])
    fn, chk = getattr(b, name), getattr(b, 'check_' + name)
    start = sim.choose(len(vs))
    for k in range(len(vs)):
        v = vs[(start + k) % len(vs)]
        if name in ('strong_comp', 'fuse'):
            with quiet_order():
                ns = sorted(g.neighbors(v))
            args = [(v, n) for n in ns]
        else:
            if int(g.type(v)) == 0:
                continue
            args = [(v,)]
        for a in args:
            with quiet_order():
                before = gen.canon(g)
            ok = chk(g, *a)
            with quiet_order():
                if gen.canon(g) != before:
                    sim.fail('check modified the diagram', 'check_%s%s' % (name, a), key='check_%s modifies' % name)
            if not ok:
                continue
            if not fn(g, *a):
                sim.fail('check and rule disagree', '%s%s' % (name, a), key='check disagrees ' + name)
            sim.log('%s%s' % (name, a))
            sim.cover('basic:' + name)
            return 'basic:' + name
    return None


def unspider(sim, zx, g):
    with quiet_order():
        vs = [v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)]
    if not vs:
        return None
    v = sim.pick(vs)
    with quiet_order():
        ns = sorted(g.neighbors(v))
    m = [v, sim.subset(ns)]
    if sim.flag():
        m.append(gen.phase(sim))
    zx.rules.unspider(g, m)
    sim.log('unspider %s' % (m,))
    sim.cover('unspider')
    return 'unspider'
