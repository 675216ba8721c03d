"""P09: the diagram's public queries agree with each other and with a reference model after every edit."""
import cmath
import math
from collections import Counter
from fractions import Fraction
import numpy as np
from .. import gen, semantics
from ..seams import quiet_order

ID = 'P09'
QUICK_RUNS = 4000
THOROUGH_RUNS = 150_000
RUN_TIMEOUT = 20
RULE = ('A run applies 10-60 random edits to a diagram (both shipped backends, automatic simplification on and off), including edits that must '
        'fail (unknown vertices, unreducible parallel edges, taken indices), and after each one compares every public query with a dictionary '
        'model of the same edits; parallel edges are checked by the local linear map of the two spiders. Non-trivial: at least five edits took '
        'effect and one of them removed something.')
REAL = 'graph.graph_s, graph.multigraph, graph.base, graph.scalar'
STUB = ''
ASSUME = 'add_edges on the simple backend is only given new pairs, as its documentation does not say what happens to a parallel edge'

B, Z, X, H, WI, WO, ZB = 0, 1, 2, 3, 4, 5, 6
ZX = (Z, X, ZB)
PH = [Fraction(0), Fraction(1), Fraction(1, 4), Fraction(1, 2), Fraction(3, 2), Fraction(7, 4), Fraction(1, 3)]


class Model:
    def __init__(self, kind):
        self.kind = kind            # 'simple' / 'multigraph'
        self.auto = True
        self.V = {}
        self.E = Counter()          # (a, b, type), a <= b
        self.ins, self.outs = (), ()
        self.scalar = 1 + 0j

    def between(self, a, b):
        a, b = min(a, b), max(a, b)
        return {t: n for (x, y, t), n in self.E.items() if (x, y) == (a, b)}

    def nbrs(self, v):
        return {b if a == v else a for (a, b, t) in self.E if v in (a, b)}

    def drop_vertex(self, v):
        del self.V[v]
        for k in [k for k in self.E if v in k[:2]]:
            del self.E[k]
        self.ins = tuple(u for u in self.ins if u != v)
        self.outs = tuple(u for u in self.outs if u != v)


def new_vertex(ty=B, ph=0, q=None, r=None, gr=False):
    return dict(ty=ty, ph=Fraction(ph), q=q, r=r, gr=gr, vd={})


def check(sim, zx, g, m, what):
    def bad(query, got, want):
        sim.fail('query disagrees: ' + query, 'after %s: %s, model says %s' % (what, got, want))

    def eq(query, got, want):
        if got != want:
            bad(query, got, want)
    V, E = m.V, m.E
    with quiet_order():
        vs = list(g.vertices())
        eq('vertices', sorted(vs), sorted(V))
        eq('num_vertices', g.num_vertices(), len(V))
        eq('vertex_set', set(g.vertex_set()), set(V))
        if V:
            eq('vindex', g.vindex(), max(V) + 1)
        seen = Counter()
        for e in g.edges():
            s, t = g.edge_st(e)
            seen[(min(s, t), max(s, t), int(g.edge_type(e)))] += 1
        eq('edges', seen, E)
        eq('num_edges', g.num_edges(), sum(E.values()))
        distinct = {(min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in set(g.edge_set())}
        eq('edge_set', distinct, set(E))
        types, phases, qubits, rows = g.types(), g.phases(), g.qubits(), g.rows()
        grounds = set(g.grounds())
        eq('grounds', grounds, {v for v in V if V[v]['gr']})
        eq('is_hybrid', bool(g.is_hybrid()), any(V[v]['gr'] for v in V))
        eq('inputs', tuple(g.inputs()), m.ins)
        eq('outputs', tuple(g.outputs()), m.outs)
        eq('num_inputs', g.num_inputs(), len(m.ins))
        eq('num_outputs', g.num_outputs(), len(m.outs))
        for v, d in V.items():
            eq('type', int(g.type(v)), d['ty'])
            eq('types', int(types[v]), d['ty'])
            eq('phase', g.phase(v) % 2, d['ph'] % 2)
            eq('phases', phases[v] % 2, d['ph'] % 2)
            eq('qubit', g.qubit(v), -1 if d['q'] is None else d['q'])
            eq('row', g.row(v), -1 if d['r'] is None else d['r'])
            eq('qubits', qubits.get(v, -1), -1 if d['q'] is None else d['q'])
            eq('rows', rows.get(v, -1), -1 if d['r'] is None else d['r'])
            eq('is_ground', bool(g.is_ground(v)), d['gr'])
            eq('vdata_keys', set(g.vdata_keys(v)), set(d['vd']))
            for k, x in d['vd'].items():
                eq('vdata', g.vdata(v, k), x)
            if g.vdata(v, 'no such key', 'default') != 'default':
                bad('vdata', g.vdata(v, 'no such key', 'default'), 'default')
            nb = m.nbrs(v)
            got = list(g.neighbors(v))
            eq('neighbors', sorted(got), sorted(nb))
            inc = Counter((min(g.edge_st(e)), max(g.edge_st(e)), int(g.edge_type(e))) for e in g.incident_edges(v))
            want = Counter({k: n for k, n in E.items() if v in k[:2]})
            eq('incident_edges', inc, want)
            deg = g.vertex_degree(v)
            loops = sum(n for k, n in want.items() if k[0] == k[1])
            if deg not in (sum(want.values()), sum(want.values()) + loops):
                bad('vertex_degree', deg, sum(want.values()))
            for w in V:
                bt = m.between(v, w)
                eq('connected', bool(g.connected(v, w)), bool(bt))
                if sum(bt.values()) == 1:
                    eq('edge_type', int(g.edge_type(g.edge(v, w))), next(iter(bt)))
                if bt:
                    eq('edges(s,t)', Counter(int(g.edge_type(e)) for e in g.edges(v, w)), Counter(bt))
        for name, dic in (('types', types), ('phases', phases)):
            eq(name + ' keys', set(dic), set(V))
        for name, dic in (('qubits', qubits), ('rows', rows)):
            if not set(dic) <= set(V):
                bad(name + ' keys', set(dic), set(V))
        for name, f in (('depth', 'r'), ('qubit_count', 'q')):
            xs = [d[f] for d in V.values() if d[f] is not None]
            eq(name, getattr(g, name)(), (max(xs) if xs else -1) + (name == 'qubit_count'))
        wf = True
        for v, d in V.items():
            n = sum(n for k, n in E.items() if v in k[:2])
            if (d['ty'] == B and n != 1) or (d['ty'] == WI and n != 2) or (d['ty'] == WO and n < 2):
                wf = False
            if any(k[0] == k[1] == v for k in E):
                wf = None
                break
        if wf is not None:
            eq('is_well_formed', bool(g.is_well_formed()), wf)
        s = semantics.scalar_value(g.scalar)
        if abs(s - m.scalar) > 1e-6 * max(1, abs(m.scalar)):
            bad('scalar', s, m.scalar)


def local(m, s, t, edges, V):
    """Linear map of spiders s and t (one open leg each) with the given edges between them."""
    net = semantics.Net()
    out, zv = [], {}
    for v in dict.fromkeys((s, t)):
        d = V[v]
        z = net.var()
        zv[v] = z
        w = complex(d['vd'].get('label', 1)) if d['ty'] == ZB else cmath.exp(1j * math.pi * float(d['ph']))
        net.add((z,), [1, w])
        o = net.var()
        net.add((z, o), np.eye(2))
        out.append(o)
    for et, n in edges.items():
        for _ in range(n):
            ends = []
            for v in (s, t):
                if V[v]['ty'] == X:
                    x = net.var()
                    net.add((zv[v], x), semantics.HAD)
                    ends.append(x)
                else:
                    ends.append(zv[v])
            net.add(ends, semantics.HAD if et == 2 else np.eye(2))
    return net.contract(out)


def smart(sim, g, m, s, t, added, what):
    """An addition of edges the calculus may simplify: only s and t may change, and the map must not."""
    old_scalar = m.scalar
    new_scalar = semantics.scalar_value(g.scalar)
    raw = Counter(m.between(s, t))
    raw.update(added)
    want = local(m, s, t, raw, m.V) * old_scalar
    with quiet_order():
        now = Counter(int(g.edge_type(e)) for e in (g.edges(s, t) if g.connected(s, t) else ()))
        after = {v: dict(m.V[v], vd=dict(m.V[v]['vd'])) for v in {s, t}}
        for v in after:
            after[v]['ph'] = Fraction(g.phase(v))
            if 'label' in g.vdata_keys(v):
                after[v]['vd']['label'] = g.vdata(v, 'label')
    got = local(m, s, t, now, after) * new_scalar
    d = semantics.same(want, got)
    if d:
        sim.fail('parallel edges change the map', '%s: types %s %s had %s added %s now %s: %s' % (
            what, m.V[s]['ty'], m.V[t]['ty'], dict(m.between(s, t)), dict(added), dict(now), d))
    if any(n > 1 for n in now.values()) or (m.kind == 'simple' and sum(now.values()) > 1) or (s == t and now):
        sim.fail('parallel edges left', '%s: %s' % (what, dict(now)))
    for v in after:
        m.V[v] = after[v]
    for et in (1, 2, 3):
        m.E.pop((min(s, t), max(s, t), et), None)
    for et, n in now.items():
        m.E[(min(s, t), max(s, t), et)] = n
    m.scalar = new_scalar


def run(sim):
    import pyzx as zx
    VT, ET = zx.VertexType, zx.EdgeType
    sim.swarm()
    kind = sim.pick(['simple', 'multigraph', 'multigraph'])
    g = zx.Graph(kind)
    m = Model(kind)
    if kind == 'multigraph' and sim.flag(0.4):
        g.set_auto_simplify(False)
        m.auto = False
    sim.cover('%s auto=%s' % (kind, m.auto))
    menu = [('vertex', 6), ('vertices', 1), ('indexed', 1), ('edge', 12), ('edges', 2), ('table', 3), ('rmedge', 4), ('rmedges', 1), ('rmvertex', 2),
            ('rmvertices', 1), ('type', 2), ('phase', 3), ('pos', 2), ('ground', 1), ('vdata', 2), ('edgetype', 2), ('io', 2), ('fail', 4),
            ('isolated', 1), ('copy', 1), ('clone', 1), ('merge', 1), ('subgraph', 1), ('detect', 1), ('pack', 1), ('w', 1)]
    menu = [(k, w * (1 + sim.choose(3))) for k, w in menu]
    effective = removed = 0

    def vertex_of(types=None):
        c = [v for v in sorted(m.V) if types is None or m.V[v]['ty'] in types]
        return sim.pick(c) if c else None

    def is_smart(s, t):
        return m.V[s]['ty'] in ZX and m.V[t]['ty'] in ZX and m.auto

    def copies(s, t, et):
        if kind != 'simple' or s == t or m.between(s, t) != {et: 1}:
            return False
        a, b = (s, t) if m.V[t]['ty'] == H else (t, s)
        return m.V[b]['ty'] == H and m.V[a]['ty'] in ZX and et == (2 if m.V[a]['ty'] == X else 1)

    def must_fail(f, what):
        sim.count_fault('failing edit')
        try:
            f()
        except Exception as e:
            sim.log('%s refused: %s' % (what, type(e).__name__))
            return
        sim.fail('bad edit accepted', what)
    for step in range(sim.between(10, 60)):
        op = sim.pickw(menu)
        if len(m.V) < 2:
            op = 'vertex'
        if len(m.V) > 14:
            op = 'rmvertices'
        what = op
        if op == 'vertex':
            ty = sim.pickw([(Z, 4), (X, 3), (B, 1), (H, 1), (ZB, 1)])
            ph = sim.pick(PH) if ty not in (B, ZB) else None
            q, r = sim.choose(4), sim.pick([0, 1, 2, 2.5, 7])
            gr = sim.flag(0.1)
            if sim.flag(0.3):
                q = r = -1
                v = g.add_vertex(VT(ty), phase=ph, ground=gr)
            else:
                v = g.add_vertex(VT(ty), q, r, ph, gr)
            if v in m.V:
                sim.fail('vertex index reused', str(v))
            m.V[v] = new_vertex(ty, ph or 0, q, r, gr)
            if ty == ZB and sim.flag(0.7):
                lab = sim.pick([2, -1, 0.5, 1j, 3 - 1j])
                g.set_vdata(v, 'label', lab)
                m.V[v]['vd']['label'] = lab
            what = 'add_vertex %s type %s' % (v, ty)
        elif op == 'vertices':
            n = sim.between(0, 3)
            for v in g.add_vertices(n):
                if v in m.V:
                    sim.fail('vertex index reused', str(v))
                m.V[v] = new_vertex()
            what = 'add_vertices %d' % n
        elif op == 'indexed':
            v = sim.choose(20)
            what = 'add_vertex_indexed %d' % v
            if v in m.V:
                must_fail(lambda: g.add_vertex_indexed(v), what)
            else:
                g.add_vertex_indexed(v)
                m.V[v] = new_vertex()
        elif op == 'w':
            i, o = g.add_vertex(VT.W_INPUT, 0, 3), g.add_vertex(VT.W_OUTPUT, 0, 4)
            m.V[i], m.V[o] = new_vertex(WI, 0, 0, 3), new_vertex(WO, 0, 0, 4)
            g.add_edge((i, o), ET.W_IO)
            m.E[(i, o, 3)] = 1
        elif op == 'edge':
            s, t = vertex_of(), vertex_of()
            et = sim.pick([1, 1, 2])
            what = 'add_edge (%s,%s) %s' % (s, t, et)
            bt = m.between(s, t)
            if copies(s, t, et):
                g.add_edge((s, t), ET(et))      # no change: the spider copies through the H-box
            elif kind == 'simple' and (s == t or bt) and not is_smart(s, t) or (kind == 'multigraph' and 3 in bt):
                must_fail(lambda: g.add_edge((s, t), ET(et)), what)
            else:
                g.add_edge((s, t), ET(et))
                if is_smart(s, t):
                    smart(sim, g, m, s, t, Counter({et: 1}), what)
                else:
                    m.E[(min(s, t), max(s, t), et)] += 1
        elif op in ('edges', 'table'):
            et = sim.pick([1, 2])
            pairs, tab = [], {}
            for _ in range(sim.between(1, 4)):
                s, t = vertex_of(), vertex_of()
                s, t = min(s, t), max(s, t)
                if (s, t) in pairs or 3 in m.between(s, t):
                    continue
                if op == 'edges' and (kind == 'simple' and (s == t or m.between(s, t))):
                    continue
                if op == 'table' and (kind == 'simple' and not is_smart(s, t)):
                    continue
                pairs.append((s, t))
                tab[(s, t)] = [sim.choose(4), sim.choose(4)] if op == 'table' else [et == 1, et == 2]
            what = 'add_%s %s' % (op, tab)
            if op == 'edges':
                g.add_edges(list(pairs), ET(et))
            else:
                g.add_edge_table(tab)
            # the pairs are simplified one after another; compare them together through one scalar
            pairs = [p for p in pairs if sum(tab[p])]
            todo = [p for p in pairs if is_smart(*p)]
            for p in pairs:
                if p not in todo:
                    for ty, n in ((1, tab[p][0]), (2, tab[p][1])):
                        if n:
                            m.E[(p[0], p[1], ty)] += n
            if todo:
                several(sim, g, m, todo, tab, what)
        elif op in ('rmedge', 'rmedges'):
            es = sorted(m.E)
            if not es:
                continue
            ks = sim.shuffled(es)[:1 if op == 'rmedge' else sim.between(1, 3)]
            names = []
            for a, b, et in ks:
                with quiet_order():
                    cand = [e for e in g.edges(a, b) if int(g.edge_type(e)) == et]
                if not cand:
                    sim.fail('query disagrees: edges(s,t)', 'no edge %s' % ((a, b, et),))
                names.append(g.edge(a, b) if sum(m.between(a, b).values()) == 1 and sim.flag() else cand[0])
            what = '%s %s' % (op, ks)
            if op == 'rmedge':
                g.remove_edge(names[0])
            else:
                g.remove_edges(names)
            for k in ks:
                m.E[k] -= 1
                if not m.E[k]:
                    del m.E[k]
            removed += 1
        elif op in ('rmvertex', 'rmvertices'):
            vs = sim.shuffled(m.V)[:1 if op == 'rmvertex' else sim.between(0, min(5, len(m.V)))]
            what = '%s %s' % (op, vs)
            if op == 'rmvertex':
                g.remove_vertex(vs[0])
            else:
                g.remove_vertices(list(vs))
            for v in vs:
                m.drop_vertex(v)
            removed += 1
        elif op == 'type':
            v = vertex_of((Z, X, H, ZB, B))
            if v is None:
                continue
            ty = sim.pick([Z, X, H])
            what = 'set_type %s %s' % (v, ty)
            g.set_type(v, VT(ty))
            m.V[v]['ty'] = ty
        elif op == 'phase':
            v = vertex_of()
            ph = sim.pick(PH + [Fraction(-1, 4), Fraction(9, 4), 2])
            if sim.flag():
                g.set_phase(v, ph)
                m.V[v]['ph'] = Fraction(ph)
                what = 'set_phase %s %s' % (v, ph)
            else:
                g.add_to_phase(v, ph)
                m.V[v]['ph'] += ph
                what = 'add_to_phase %s %s' % (v, ph)
        elif op == 'pos':
            v = vertex_of()
            q, r = sim.pick([0, 1, 5, 0.5, -2]), sim.pick([0, 3, 9, 1.25, -1])
            k = sim.choose(3)
            what = 'position %s %s %s' % (v, (q, r), k)
            if k == 0:
                g.set_position(v, q, r)
            if k == 1:
                g.set_qubit(v, q)
            if k == 2:
                g.set_row(v, r)
            if k != 2:
                m.V[v]['q'] = q
            if k != 1:
                m.V[v]['r'] = r
        elif op == 'ground':
            v = vertex_of()
            f = sim.flag(0.6)
            g.set_ground(v, f)
            m.V[v]['gr'] = f
            what = 'set_ground %s %s' % (v, f)
        elif op == 'vdata':
            v = vertex_of()
            k, x = sim.pick(['a', 'b', 'note']), sim.pick([1, 'x', (1, 2), None, 0])
            g.set_vdata(v, k, x)
            m.V[v]['vd'][k] = x
            what = 'set_vdata %s %s' % (v, k)
        elif op == 'edgetype':
            es = [k for k in sorted(m.E) if k[2] != 3]
            if not es:
                continue
            a, b, et = sim.pick(es)
            to = sim.pick([1, 2])
            what = 'set_edge_type %s %s' % ((a, b, et), to)
            with quiet_order():
                e = [e for e in g.edges(a, b) if int(g.edge_type(e)) == et][0]
            if sum(m.between(a, b).values()) == 1 and sim.flag():
                e = g.edge(a, b)
            g.set_edge_type(e, ET(to))
            m.E[(a, b, et)] -= 1
            m.E[(a, b, to)] += 1
            if not m.E[(a, b, et)]:
                del m.E[(a, b, et)]
        elif op == 'io':
            bs = sim.shuffled(v for v in sorted(m.V) if m.V[v]['ty'] == B)
            k = sim.between(0, len(bs))
            m.ins, m.outs = tuple(bs[:k]), tuple(bs[k:])
            g.set_inputs(m.ins)
            g.set_outputs(m.outs)
            what = 'set_inputs %s set_outputs %s' % (m.ins, m.outs)
        elif op == 'fail':
            missing = max(m.V) + 1 + sim.choose(3)
            v = vertex_of()
            k = sim.choose(6)
            what = 'bad edit %d' % k
            if k == 0:
                must_fail(lambda: g.add_edge((v, missing)), 'add_edge to a missing vertex')
            elif k == 1:
                must_fail(lambda: g.add_edge((missing, v), ET.HADAMARD), 'add_edge from a missing vertex')
            elif k == 2:
                must_fail(lambda: g.remove_vertex(missing), 'remove a missing vertex')
            elif k == 3:
                w = vertex_of()
                if not m.between(v, w):
                    must_fail(lambda: g.remove_edge(g.edge(v, w)), 'remove a missing edge')
            elif k == 4:
                must_fail(lambda: g.apply_state('0' * (len(m.ins) + 1)), 'apply_state that is too long')
            else:
                must_fail(lambda: g.add_vertex_indexed(v), 'taken index')
        elif op == 'isolated':
            removed += isolated(sim, g, m) or 0
            what = 'remove_isolated_vertices'
        elif op == 'copy':
            if any(is_smart(k[0], k[1]) and (k[0] == k[1] or sum(m.between(k[0], k[1]).values()) > 1) for k in m.E):
                continue        # edges from before a change of type: copying simplifies them
            with quiet_order():
                order = list(g.vertices())
            h = g.copy()
            tab = {v: i for i, v in enumerate(order)}
            m.V = {tab[v]: d for v, d in m.V.items()}
            m.E = Counter({(min(tab[a], tab[b]), max(tab[a], tab[b]), t): n for (a, b, t), n in m.E.items()})
            m.ins, m.outs = tuple(tab[v] for v in m.ins), tuple(tab[v] for v in m.outs)
            for d in m.V.values():
                d['q'], d['r'] = (-1 if d['q'] is None else d['q']), (-1 if d['r'] is None else d['r'])
            g = h
        elif op == 'clone':
            g = g.clone()
        elif op == 'merge':
            h = zx.Graph(kind)
            hv = []
            for _ in range(sim.between(1, 3)):
                ty = sim.pick([Z, X, ZB, B])
                v = h.add_vertex(VT(ty), sim.choose(3), sim.choose(5), sim.pick(PH) if ty in (Z, X) else None, sim.flag(0.1))
                if ty == ZB:
                    h.set_vdata(v, 'label', 0.5)
                hv.append((v, ty))
            he = []
            for i in range(1, len(hv)):
                et = sim.pick([1, 2])
                h.add_edge((hv[i - 1][0], hv[i][0]), ET(et))
                he.append((hv[i - 1][0], hv[i][0], et))
            verts, edges = g.merge(h)
            if len(set(verts)) != len(hv) or set(verts) & set(m.V):
                sim.fail('merge reports wrong vertices', '%s' % (verts,))
            if m.kind == 'simple' or m.auto:
                ends = sorted(tuple(sorted(g.edge_st(e))) for e in edges)
                if len(ends) != len(he) or not all(set(p) <= set(verts) for p in ends):
                    sim.fail('merge reports wrong edges', '%s for vertices %s' % (edges, verts))
            # match merged vertices with the originals by their order in the merged graph
            with quiet_order():
                horder = list(h.vertices())
            tab = match(sim, g, h, verts, he)
            for v, ty in hv:
                m.V[tab[v]] = dict(ty=ty, ph=Fraction(h.phase(v)), q=h.qubit(v), r=h.row(v), gr=bool(h.is_ground(v)),
                                   vd={k: h.vdata(v, k) for k in h.vdata_keys(v)})
            for a, b, et in he:
                m.E[(min(tab[a], tab[b]), max(tab[a], tab[b]), et)] += 1
        elif op == 'subgraph':
            vs = sim.shuffled(m.V)[:sim.between(0, len(m.V))]
            h = g.subgraph_from_vertices(list(vs))
            mm = Model(kind)
            mm.auto = m.auto
            tab = {v: i for i, v in enumerate(vs)}
            for v in vs:
                d = m.V[v]
                mm.V[tab[v]] = dict(d, vd=dict(d['vd']), q=-1 if d['q'] is None else d['q'], r=-1 if d['r'] is None else d['r'])
            skip = False
            for (a, b, t), n in m.E.items():
                if a in tab and b in tab:
                    mm.E[(min(tab[a], tab[b]), max(tab[a], tab[b]), t)] = n
            if not any(is_smart(a, b) and sum(mm_.values()) > 1 for (a, b) in {k[:2] for k in m.E} for mm_ in [m.between(a, b)]) and \
                    not any(k[0] == k[1] for k in m.E):
                check(sim, zx, h, mm, 'subgraph_from_vertices %s' % vs)
        elif op == 'detect':
            ok = True
            ins, outs = [], []
            for v, d in m.V.items():
                if d['ty'] != B:
                    continue
                inc = [k for k in m.E.elements() if v in k[:2]]
                if len(inc) != 1 or inc[0][0] == inc[0][1]:
                    ok = False
                    break
                w = inc[0][1] if inc[0][0] == v else inc[0][0]
                rv, rw = (-1 if m.V[u]['r'] is None else m.V[u]['r'] for u in (v, w))
                if rv == rw:
                    ok = False
                    break
                (ins if rw > rv else outs).append(v)
            if not ok:
                must_fail(g.auto_detect_io, 'auto_detect_io') if any(d['ty'] == B for d in m.V.values()) else None
            else:
                g.auto_detect_io()
                gi, go = tuple(g.inputs()), tuple(g.outputs())
                for got, want in ((gi, ins), (go, outs)):
                    if set(got) != set(want) or [g.qubit(v) for v in got] != sorted(g.qubit(v) for v in want):
                        sim.fail('auto_detect_io wrong', '%s %s vs %s %s' % (gi, go, ins, outs))
                m.ins, m.outs = gi, go
        elif op == 'pack':
            g.pack_circuit_rows()
            rs = {v: (-1 if d['r'] is None else d['r']) for v, d in m.V.items()}
            rank = {r: i for i, r in enumerate(sorted(set(rs.values())))}
            lo = min(g.row(v) for v in m.V)
            for v in m.V:
                if g.row(v) != rank[rs[v]] + lo:
                    sim.fail('pack_circuit_rows wrong', '%s: %s' % (rs, {v: g.row(v) for v in m.V}))
                m.V[v]['r'] = g.row(v)
        sim.log(what)
        sim.tick()
        effective += 1
        check(sim, zx, g, m, what)
    sim.nontrivial = effective >= 5 and removed > 0


def several(sim, g, m, pairs, tab, what):
    """Edges added between several spiders at once: compare the local map of all of them together."""
    vs = sorted({v for p in pairs for v in p})
    if len(vs) > 8:
        return

    def whole(V, edges):
        net = semantics.Net()
        zv, out = {}, []
        for v in vs:
            d = V[v]
            z = zv[v] = net.var()
            w = complex(d['vd'].get('label', 1)) if d['ty'] == ZB else cmath.exp(1j * math.pi * float(d['ph']))
            net.add((z,), [1, w])
            o = net.var()
            net.add((z, o), np.eye(2))
            out.append(o)
        for (s, t, et), n in edges.items():
            for _ in range(n):
                ends = []
                for v in (s, t):
                    if V[v]['ty'] == X:
                        x = net.var()
                        net.add((zv[v], x), semantics.HAD)
                        ends.append(x)
                    else:
                        ends.append(zv[v])
                net.add(ends, semantics.HAD if et == 2 else np.eye(2))
        return net.contract(out)
    raw = Counter()
    for s, t in pairs:
        for et, n in m.between(s, t).items():
            raw[(s, t, et)] += n
        raw[(s, t, 1)] += tab[(s, t)][0]
        raw[(s, t, 2)] += tab[(s, t)][1]
    want = whole(m.V, raw) * m.scalar
    now = Counter()
    after = {v: dict(m.V[v], vd=dict(m.V[v]['vd'])) for v in vs}
    with quiet_order():
        for s, t in pairs:
            for e in (g.edges(s, t) if g.connected(s, t) else ()):
                now[(s, t, int(g.edge_type(e)))] += 1
        for v in vs:
            after[v]['ph'] = Fraction(g.phase(v))
            if 'label' in g.vdata_keys(v):
                after[v]['vd']['label'] = g.vdata(v, 'label')
    sc = semantics.scalar_value(g.scalar)
    d = semantics.same(want, whole(after, now) * sc)
    if d:
        sim.fail('parallel edges change the map', '%s: %s now %s: %s' % (what, dict(raw), dict(now), d))
    for s, t in pairs:
        for et in (1, 2):
            m.E.pop((s, t, et), None)
    for k, n in now.items():
        m.E[k] = n
        if n > 1 or k[0] == k[1] or (m.kind == 'simple' and now[(k[0], k[1], 3 - k[2])]):
            sim.fail('parallel edges left', '%s: %s' % (what, dict(now)))
    for v in vs:
        m.V[v] = after[v]
    m.scalar = sc


def match(sim, g, h, verts, he):
    """Which merged vertex stands for which original: new indices follow the order of enumeration."""
    import itertools
    with quiet_order():
        hv = sorted(h.vertices())

        def look(gr, v):
            return (int(gr.type(v)), Fraction(gr.phase(v)), gr.qubit(v), gr.row(v), bool(gr.is_ground(v)),
                    sorted((k, gr.vdata(v, k)) for k in gr.vdata_keys(v)))
        for p in itertools.permutations(verts):
            tab = dict(zip(hv, p))
            if all(look(h, v) == look(g, tab[v]) for v in hv) and all(
                    g.connected(tab[a], tab[b]) and int(g.edge_type(g.edge(tab[a], tab[b]))) == et for a, b, et in he):
                return tab
    sim.fail('merge is not faithful', gen.describe(g))


def isolated(sim, g, m):
    comps, seen = [], set()
    for v in m.V:
        if v in seen:
            continue
        comp, todo = {v}, [v]
        while todo:
            for w in m.nbrs(todo.pop()):
                if w not in comp:
                    comp.add(w)
                    todo.append(w)
        seen |= comp
        comps.append(sorted(comp))
    rem, val = [], 1 + 0j
    for c in comps:
        if len(c) > 2 or any(m.V[v]['ty'] in (WI, WO) or m.V[v]['gr'] for v in c):
            if len(c) <= 2:
                return 0
            continue
        if any(m.V[v]['ty'] == B for v in c):
            if len(c) == 1:
                return 0        # refused: not a well-formed diagram
            continue
        es = [k for k in m.E.elements() if k[0] in c]
        if len(es) != len(c) - 1:
            return 0            # loops or parallel edges: not what the operation is for
        net = semantics.Net()
        ends = {v: [] for v in c}
        for a, b, et in es:
            x, y = net.var(), net.var()
            ends[a].append(x)
            ends[b].append(y)
            net.add((x, y), semantics.HAD if et == 2 else np.eye(2))
        for v in c:
            d, k = m.V[v], len(ends[v])
            w = complex(d['vd'].get('label', 1)) if d['ty'] == ZB else cmath.exp(1j * math.pi * float(d['ph']))
            if k == 0:
                arr = np.array(w if d['ty'] == H else 1 + w)
            else:
                arr = np.array([1, w])
                if d['ty'] == X:
                    arr = semantics.HAD @ arr
            net.add(ends[v], arr)
        val *= complex(net.contract([]))
        rem += c
    g.remove_isolated_vertices()
    m.scalar *= val
    if abs(val) < 1e-9:
        m.scalar = 0j
    for v in rem:
        m.drop_vertex(v)
    sim.log('isolated %s' % rem)
    return len(rem)
