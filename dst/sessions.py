"""Editing and rewriting sessions on one diagram (used by the worlds about saving, replication and the editor)."""
from fractions import Fraction
from . import gen
from .core import HarnessError, Skip, Violation, product_frame
from .seams import quiet_order


def poly(sim, g):
    from pyzx.symbolic import new_var
    name = sim.pick(['a', 'b', 'c', 'theta'])
    if name not in g.variable_types:
        g.variable_types[name] = sim.flag()
    p = new_var(name, g.variable_types) * sim.pick([1, 1, -1, 2, Fraction(1, 2), Fraction(-3, 4)])
    if sim.flag(0.3):
        other = sim.pick(['a', 'b'])
        if other not in g.variable_types:
            g.variable_types[other] = sim.flag()
        p = p + new_var(other, g.variable_types) * sim.pick([1, -1])
    if sim.flag(0.4):
        p = p + gen.phase(sim, 't')
    return p


VALUES = ['text', 'v1', 'b0', '5', 'j', 'inf', 'nan', '1/2', '', 7, -2, 2.5, True, [1, 2], 0, 1j, 'name', 2 - 1j, '1.5', Fraction(3, 8), None, 'infinity', '1e3']


def annotate(sim, g, n=1, keys=('note', 'label', 'name', 'p', 'label2')):
    vs = sorted(g.vertices())
    for _ in range(n):
        if not vs:
            return
        v = sim.pick(vs)
        k = sim.pick(list(keys))
        if k == 'label' and int(g.type(v)) == 6:
            x = sim.pick([2, 0.5, 1j, -1, Fraction(1, 2), Fraction(7, 300), 3 - 1j, -0.25])
        else:
            x = sim.pick(VALUES)
        g.set_vdata(v, k, x)


def start(sim, sym=True, backend=None, kinds=None):
    """A diagram with everything a session may leave in it."""
    import pyzx as zx
    how = sim.pickw(kinds or [('any', 9), ('graph', 4), ('multi', 6), ('zbox', 2), ('w', 2), ('h', 2), ('hybrid', 2), ('wide', 1), ('empty', 1)])
    kind = sim.pickw([('t', 4), ('a', 2)])
    if how == 'any':
        g, _ = gen.any_diagram(sim, kind, qmax=3, gmax=16, vmax=7)
    elif how == 'graph':
        g = gen.graph(sim, vmax=7, bmax=4, kind=kind)
    elif how == 'multi':
        g = gen.graph(sim, vmax=6, bmax=4, kind=kind, backend='multigraph', types=('Z', 'X', 'Z', 'H') if sim.flag(0.3) else ('Z', 'X'))
        g.set_auto_simplify(sim.flag())
    elif how == 'zbox':
        g = gen.graph(sim, vmax=6, bmax=3, types=('Z', 'ZB', 'X'))
    elif how == 'w':
        g = gen.graph(sim, vmax=5, bmax=3, types=('Z', 'X'))
        gen.add_ws(sim, g)
    elif how == 'h':
        g = gen.graph(sim, vmax=7, bmax=4, types=('Z', 'H', 'X'))
    elif how == 'wide':     # more wires than one digit can number
        with quiet_order():
            g = gen.circuit(sim, 10, 13, 12, kind).to_graph()
            if sim.flag(0.7):
                g.apply_state(''.join(sim.pick(['0', '+', '/']) for _ in range(len(g.inputs()))) if sim.flag() else '0' * len(g.inputs()))
            if sim.flag(0.3):
                g.set_outputs(tuple(sim.shuffled(g.outputs())))
    elif how == 'hybrid':
        g, _ = gen.any_diagram(sim, 't', qmax=3, gmax=10, vmax=6)
        for v in sim.subset([v for v in sorted(g.vertices()) if int(g.type(v)) == 1], 0.3):
            g.set_ground(v, True)
    else:
        g = zx.Graph()
    gen.perturb_history(sim, g)
    if sim.flag(0.4):
        annotate(sim, g, 1 + sim.choose(4))
    if sym and sim.flag(0.25):
        for v in sim.subset([v for v in sorted(g.vertices()) if int(g.type(v)) in (1, 2)], 0.4):
            g.set_phase(v, poly(sim, g))
    if sim.flag(0.3):
        scalar_edit(sim, g)
    return g, how


def scalar_edit(sim, g):
    s = g.scalar
    op = sim.choose(6)
    if op == 0:
        s.add_power(sim.between(-3, 3))
    elif op == 1:
        s.add_phase(gen.phase(sim, 'a'))
    elif op == 2:
        s.add_node(gen.phase(sim, 'a'))
    elif op == 3:
        s.add_float(sim.pick([0.5, 1j, -1, 1.000001, 2 - 1j, 1e-7]))
    elif op == 4:
        s.add_spider_pair(gen.phase(sim, 't'), gen.phase(sim, 'a'))
    elif sim.flag(0.2):
        s.set_unknown()


STRATS = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'spider_simp', 'id_simp', 'to_gh', 'to_rg', 'pivot_simp', 'lcomp_simp',
          'gadget_simp', 'pivot_gadget_simp', 'phase_free_simp', 'supplementarity_simp', 'copy_simp']

NEED_GH = {'pivot_simp', 'lcomp_simp', 'pivot_gadget_simp', 'gadget_simp', 'supplementarity_simp', 'copy_simp', 'phase_free_simp'}


def numeric(g):
    return all(isinstance(g.phase(v), (int, Fraction)) for v in g.vertices())


def step(sim, g, sym=True, annot=True):
    """One edit or rewrite of the diagram in place; returns what was done.  The code may refuse it (exception), in which case
    whatever it did before refusing is part of the session."""
    import pyzx as zx
    VT, ET = zx.VertexType, zx.EdgeType
    vs = sorted(g.vertices())
    op = sim.pickw([('phase', 3), ('vertex', 3), ('edge', 4), ('rmedge', 2), ('rmvertex', 2), ('type', 1), ('etype', 2), ('pos', 2), ('io', 1), ('scalar', 2),
                    ('note', 2 if annot else 0), ('ground', 1), ('strategy', 4), ('color', 2), ('fuse', 2), ('state', 1), ('sym', 1 if sym else 0), ('zbox', 1),
                    ('isolated', 1), ('normalize', 1)])
    plain = all(int(g.type(v)) in (0, 1, 2) for v in vs) and not g.is_hybrid()
    spid = [v for v in vs if int(g.type(v)) in (1, 2)]
    try:
        if op == 'phase' and spid:
            g.set_phase(sim.pick(spid), gen.phase(sim, sim.pick(['t', 'a'])) if sim.flag(0.8) else Fraction(sim.between(1, 700), 701))
        elif op == 'vertex':
            t = sim.pick([VT.Z, VT.X, VT.Z, VT.H_BOX, VT.Z_BOX])
            v = g.add_vertex(t, sim.choose(4), sim.pick([1, 2.5, 0.125]), gen.phase(sim, 't') if t in (VT.Z, VT.X) and sim.flag() else None)
            if annot and sim.flag(0.3):
                g.set_vdata(v, 'note', sim.pick(VALUES))
            if vs and sim.flag(0.8):
                ws = [w for w in vs if int(g.type(w)) in (1, 2, 6)]
                for w in sim.shuffled(ws)[:2]:
                    g.add_edge((w, v), sim.pick([ET.SIMPLE, ET.HADAMARD]))
        elif op == 'edge' and len(spid) > 1:
            a, b = sim.shuffled(spid)[:2]
            if sim.flag(0.1):
                b = a
            g.add_edge((min(a, b), max(a, b)), sim.pick([ET.SIMPLE, ET.HADAMARD]))
        elif op == 'rmedge':
            es = [e for e in sorted(g.edges(), key=str) if all(int(g.type(x)) in (1, 2, 3, 6) for x in g.edge_st(e))]
            if es:
                g.remove_edge(sim.pick(es))
        elif op == 'rmvertex' and vs:
            c = [v for v in vs if int(g.type(v)) in (1, 2, 3, 6) and all(int(g.type(w)) in (1, 2, 3, 6) for w in g.neighbors(v))]
            if c:
                g.remove_vertex(sim.pick(c))
        elif op == 'type' and spid:
            v = sim.pick(spid)
            g.set_type(v, VT.X if int(g.type(v)) == 1 else VT.Z)
        elif op == 'etype':
            es = [e for e in sorted(g.edges(), key=str) if int(g.edge_type(e)) in (1, 2)]
            if es:
                e = sim.pick(es)
                g.set_edge_type(e, ET.SIMPLE if int(g.edge_type(e)) == 2 else ET.HADAMARD)
        elif op == 'pos' and vs:
            g.set_position(sim.pick(vs), sim.pick([0, 1, -2, 3.5]), sim.pick([0, 1, 7.25, -1]))
        elif op == 'io':
            b = [v for v in vs if int(g.type(v)) == 0]
            k = sim.choose(len(b) + 1)
            b = sim.shuffled(b)
            g.set_inputs(tuple(b[:k]))
            g.set_outputs(tuple(b[k:]))
        elif op == 'scalar':
            scalar_edit(sim, g)
        elif op == 'note':
            annotate(sim, g)
        elif op == 'ground':
            z = [v for v in vs if int(g.type(v)) == 1]
            if z and (g.is_hybrid() or sim.flag(0.3)):
                v = sim.pick(z)
                g.set_ground(v, not g.is_ground(v))
        elif op == 'strategy' and plain:
            s = sim.pick(STRATS)
            op += ' ' + s
            getattr(zx.simplify, s)(g, **({} if s in ('to_gh', 'to_rg') else {'quiet': True}))
        elif op == 'color' and spid:
            zx.basicrules.color_change(g, sim.pick(spid))
        elif op == 'fuse' and spid:
            v = sim.pick(spid)
            n = [w for w in sorted(g.neighbors(v)) if w in spid]
            if n:
                zx.basicrules.fuse(g, v, sim.pick(n))
        elif op == 'state':
            if g.inputs():
                g.apply_state(''.join(sim.pick('01+-/') for _ in g.inputs()))
        elif op == 'sym' and spid:
            g.set_phase(sim.pick(spid), poly(sim, g))
        elif op == 'zbox':
            z = [v for v in vs if int(g.type(v)) == 6]
            if z:
                g.set_vdata(sim.pick(z), 'label', sim.pick([2, 0.5, 1j, -1, Fraction(1, 2), 3 - 1j]))
        elif op == 'isolated' and plain and numeric(g):
            g.remove_isolated_vertices()
        elif op == 'normalize' and g.inputs() and g.outputs():
            g.normalize()
    except (Violation, Skip, HarnessError):
        raise
    except Exception as e:
        if product_frame(e.__traceback__) is None:
            raise
        op += ' (refused: %s)' % type(e).__name__
    return op
