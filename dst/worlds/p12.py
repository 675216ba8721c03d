"""P12: rewriting sessions interrupted by save, crash and reload."""
import copy
import os
import pickle
import re
from collections import Counter
from fractions import Fraction
from .. import gen, sessions
from ..core import HarnessError, Skip, Violation, product_frame
from ..seams import quiet_order
from ..semantics import graph_tensor, same
from ..simfs import SimFS, Crash
from .p11 import norm_phase, norm_value, small

ID = 'P12'
QUICK_RUNS = 6000
THOROUGH_RUNS = 300_000
RULE = ('A run is an editing session (as in P11: both native backends, all vertex kinds, symbolic phases, annotations, scalars) that is saved as '
        'JSON to a simulated disk at scheduler-chosen points, with write errors, torn writes and crashes; after a crash the session is reloaded '
        'from what the disk holds and goes on. Every reload is compared with what was saved, vertex by vertex (and by tensor for small '
        'diagrams); cut-short files must be rejected. TikZ text of the session is read back as well. Non-trivial: a session that changed the diagram was reloaded and continued.')
REAL = 'graph.jsonparser, graph.scalar JSON, symbolic parser, tikz, graph backends, simplify and basicrules as editors'
STUB = 'the disk and the process that is killed'
ASSUME = ['Vertex numbers are not part of a save file; vertices are matched by an annotation.', 'Layout is kept to the three decimals the format has.',
          'Parallel edges may be simplified by the calculus while loading.']


def uid(g, v):
    return g.vdata(v, 'uid')


def value(x):
    if isinstance(x, (list, tuple)):
        return [value(y) for y in x]
    return norm_value(x)


def content(g, tags):
    """What a save must keep.  tags: vertex -> identity."""
    with quiet_order():
        V = {}
        for v in g.vertices():
            ann = {k: value(g.vdata(v, k)) for k in g.vdata_keys(v) if k != 'uid'}
            if 'name' in ann and ann['name'] in ("''", repr(None)):
                del ann['name']
            ty = int(g.type(v))
            if ty == 6:
                ann['label'] = value(g.vdata(v, 'label', 1))
            V[tags[v]] = dict(type=ty, phase=norm_phase(g.phase(v)), qubit=float(g.qubit(v)), row=float(g.row(v)), ground=bool(g.is_ground(v)), ann=ann)
        E = Counter()
        for e in g.edges():
            a, b = g.edge_st(e)
            E[(min(tags[a], tags[b]), max(tags[a], tags[b]), int(g.edge_type(e)))] += 1
        s = g.scalar
        sc = (s.power2, norm_phase(s.phase), tuple(norm_phase(p) for p in s.phasenodes), complex(s.floatfactor), bool(s.is_unknown), bool(s.is_zero))
        used = set()
        for v in g.vertices():
            p = g.phase(v)
            if hasattr(p, 'free_vars'):
                used |= {(x.name, bool(x.is_bool)) for x in p.free_vars()}
        return V, E, [tags[v] for v in g.inputs()], [tags[v] for v in g.outputs()], sc, used


def check(sim, zx, h, saved, what, scalar=True):
    """h was loaded from the save of a diagram with the given content."""
    V, E, ins, outs, sc, used = saved
    with quiet_order():
        tags = {v: h.vdata(v, 'uid', None) for v in h.vertices()}
    parallel = any(n > 1 for n in E.values()) or len({k[:2] for k in E}) < len(E) or any(a == b for a, b, _ in E)
    extra = [v for v in tags if tags[v] is None]
    if parallel and extra and all(int(h.type(v)) == 1 and h.phase(v) == 0 and h.vertex_degree(v) == 2 for v in extra):
        sim.cover('parallel edges kept apart by identities')
        return parallel
    if sorted(map(str, tags.values())) != sorted(map(str, V)):
        sim.fail('vertices lost', '%s: %s became %s' % (what, sorted(V), sorted(tags.values(), key=str)))
    V2, E2, ins2, outs2, sc2, used2 = content(h, tags)
    for u in V:
        a, b = V[u], V2[u]
        # a name the format invents for a vertex without one is no annotation of the user
        if 'name' in b['ann'] and 'name' not in a['ann']:
            b['ann'].pop('name')
        for k in a:
            if k in ('qubit', 'row'):
                if abs(a[k] - b[k]) > 0.0006:
                    sim.fail('layout changed', '%s: %s of %s: %s became %s' % (what, k, u, a[k], b[k]))
            elif k == 'ann':
                for x in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(x) != b[k].get(x) and not (parallel and x == 'label' and a['type'] == 6):
                        sim.fail('annotation changed', '%s: %s of vertex %s (type %d): %s became %s' % (what, x, u, a['type'], a[k].get(x), b[k].get(x)),
                                 key='annotation changed: %s' % ('name' if x == 'name' else 'label' if x == 'label' else 'other'))
            elif a[k] != b[k] and not (parallel and k == 'phase'):
                sim.fail('%s changed' % k, '%s: %s of vertex %s (type %d): %s became %s' % (what, k, u, a['type'], a[k], b[k]))
    if not parallel and E2 != E:
        sim.fail('edges changed', '%s: %s became %s' % (what, dict(E - E2), dict(E2 - E)))
    if ins2 != ins or outs2 != outs:
        sim.fail('boundary changed', '%s: %s %s became %s %s' % (what, ins, outs, ins2, outs2))
    if scalar and not parallel and sc2 != sc:
        sim.fail('scalar changed', '%s: %s became %s' % (what, sc, sc2))
    if used2 != used:
        sim.fail('variables changed', '%s: %s became %s' % (what, used, used2))
    return parallel


def can_tensor(g):
    if not small(g) or any(int(g.type(v)) == 6 and not isinstance(g.vdata(v, 'label', 1), (int, float, complex, Fraction)) for v in g.vertices()):
        return False
    return g.num_edges() < 40


def run(sim):
    import pyzx as zx
    sim.swarm()
    g, how = sessions.start(sim)
    sim.cover('start ' + how)
    fresh = [0]
    reloaded = changed = 0
    with SimFS(sim, p=sim.pick([0, 0.05, 0.2]), budget=2, crash=True) as fs:
        path = fs.work + '/session.' + sim.pick(['qgraph', 'json'])
        disk = None          # (text, kind, content, tensor) of the last save known to be complete
        for _ in range(sim.between(1, 10)):
            act = sim.pickw([('edit', 10), ('save', 8), ('reload', 4), ('tikz', 2)])
            if act == 'tikz':
                tikz(sim, zx, g)
                continue
            if act == 'edit':
                w = [sessions.step(sim, g) for _ in range(sim.between(1, 3))]
                sim.log('edit ' + ', '.join(w))
                changed += 1
                continue
            if act == 'save' or disk is None:
                fs.crashed = False
                fs.budget = max(fs.budget, 1)
                tags = {}
                with quiet_order():
                    for v in sorted(g.vertices()):
                        tags[v] = 'u%d' % fresh[0]
                        fresh[0] += 1
                tagged = sim.flag(0.8)
                if tagged:
                    for v, t in tags.items():
                        g.set_vdata(v, 'uid', t)
                with quiet_order():
                    want = content(g, tags)
                    kind = sim.pickw([('json', 8), ('bare', 1), ('pickle', 1)])
                    ten = graph_tensor(g, with_scalar=kind != 'bare') if can_tensor(g) else None
                try:
                    text = g.to_json(include_scalar=kind == 'json') if kind != 'pickle' else pickle.dumps(g)
                except Exception as e:
                    if product_frame(e.__traceback__) is None and kind != 'pickle':
                        raise
                    sim.fail('cannot be saved', '%s: %r\n%s' % (kind, e, gen.describe(g)), key='cannot be saved: %s' % type(e).__name__)
                with quiet_order():
                    if content(g, tags) != want:
                        sim.fail('saving changed the diagram', kind)
                sim.log('save %s %d' % (kind, len(text)))
                old = disk
                disk = (text, kind, want, ten, tagged, type(g).__name__)
                inplace = sim.flag(0.5)
                try:
                    p = path if inplace else path + '.new'
                    with open(p, 'wb' if kind == 'pickle' else 'w') as f:
                        f.write(text)
                    if not inplace:
                        os.replace(p, path)
                except OSError as e:
                    sim.log('save failed: %s' % type(e).__name__)
                except Crash:
                    sim.log('killed while saving')
                    g = None
                disk = on_disk(sim, zx, fs, path, disk, old)
                if sim.flag(0.4):
                    k = sim.choose(len(text))
                    sim.count_fault('truncated file')
                    rejected(sim, zx, text[:k], kind)
                if g is None and disk is None:
                    return          # nothing to go back to
            if act == 'reload' or g is None:
                fs.crashed = False
                if disk is None:
                    continue
                if act == 'reload':
                    sim.count_fault('killed between saves')
                g = load(sim, zx, disk)
                reloaded += 1
                with quiet_order():
                    keep = graph_tensor(g) if can_tensor(g) else None
                if keep is not None and type(g).__name__ == 'GraphS' and sim.flag(0.7) and all(int(g.type(v)) in (0, 1, 2) for v in g.vertices()):
                    s = sim.pick(sessions.STRATS)
                    if s in sessions.NEED_GH and not zx.simplify.is_graph_like(g):
                        zx.simplify.to_gh(g)
                        zx.simplify.spider_simp(g, quiet=True)
                    getattr(zx.simplify, s)(g, **({} if s in ('to_gh', 'to_rg') else {'quiet': True}))
                    sim.log('continued with ' + s)
                    with quiet_order():
                        d = same(keep, graph_tensor(g))
                    if d:
                        sim.fail('continued session is wrong', '%s after reload: %s' % (s, d))
        if disk is not None and g is not None:
            fs.crashed = False
            load(sim, zx, disk)
            reloaded += 1
    sim.nontrivial = reloaded > 0 and changed > 0


def tikz(sim, zx, g):
    """the session is kept as TikZ text as well (layout to two decimals; no scalar, annotations or boundary order)"""
    with quiet_order():
        V = list(g.vertices())
        E = [(*g.edge_st(e), int(g.edge_type(e))) for e in g.edges()]
        label = {v: g.vdata(v, 'label', 1) if int(g.type(v)) == 6 else g.phase(v) for v in V}
        if any(isinstance(x, float) or hasattr(x, 'free_vars') for x in label.values()) or any(g.is_ground(v) for v in V):
            return
        if any(a == b or (t == 2 and 0 in (int(g.type(a)), int(g.type(b)))) for a, b, t in E) or len({frozenset(e[:2]) for e in E}) < len(E):
            return          # a Hadamard on a boundary wire is drawn on top of it
        if len({(int(round(g.row(v) * 1000)) // 50, int(round(g.qubit(v) * 1000)) // 50) for v in V}) < len(V):
            return          # vertices on top of each other are taken for one
    try:
        text = g.to_tikz()
    except Exception as e:
        sim.fail('cannot be exported', 'TikZ: %r\n%s' % (e, gen.describe(g)), key='cannot be exported: %s' % type(e).__name__)
    sim.log('tikz %d' % len(text))
    sim.cover('tikz')
    if sim.flag(0.3):
        k = sim.choose(len(text.rstrip()))
        sim.count_fault('truncated file')
        try:
            zx.tikz.tikz_to_graph(text[:k])
        except Exception:
            pass
        else:
            sim.fail('torn save accepted', 'TikZ text cut to %d characters: %s' % (k, text[:k]))
    target = {'GraphS': 'simple', 'Multigraph': 'multigraph'}[type(g).__name__] if sim.flag() else None
    try:
        h = zx.tikz.tikz_to_graph(text, backend=target)
    except Exception as e:
        sim.fail('cannot be loaded', 'TikZ: %r: %s' % (e, text[:1500]), key='cannot be loaded from TikZ: %s' % type(e).__name__)
    with quiet_order():
        W = list(h.vertices())
        if len(W) != len(V):
            sim.fail('vertices lost', 'TikZ: %d became %d: %s' % (len(V), len(W), text))
        to = dict(zip((int(x) for x in re.findall(r'\] \((\d+)\) at', text)), W))
        for v, w in to.items():
            if g.type(v) != h.type(w):
                sim.fail('type changed', 'TikZ: %s became %s: %s' % (g.type(v), h.type(w), text))
            a, b = label[v], h.vdata(w, 'label', 1) if int(h.type(w)) == 6 else h.phase(w)
            if a != b and not (int(g.type(v)) == 6 and abs(complex(a) - complex(b)) < 1e-9):
                sim.fail('phase changed', 'TikZ: %r became %r (type %d): %s' % (a, b, int(g.type(v)), text))
            if abs(g.row(v) - h.row(w)) > 0.0051 or abs(g.qubit(v) - h.qubit(w)) > 0.0051:
                sim.fail('layout changed', 'TikZ: %s became %s' % ((g.row(v), g.qubit(v)), (h.row(w), h.qubit(w))))
        a = Counter((frozenset((to[x], to[y])), t) for x, y, t in E)
        b = Counter((frozenset(h.edge_st(e)), int(h.edge_type(e))) for e in h.edges())
        if a != b:
            sim.fail('edges changed', 'TikZ: lost %s, gained %s: %s' % (dict(a - b), dict(b - a), text))


def on_disk(sim, zx, fs, path, disk, old):
    """What a later reload will find: the new save, the old one, or a torn file (rejected, the user keeps an earlier copy)."""
    act, fs.active = fs.active, False
    try:
        try:
            with open(path, 'rb') as f:
                raw = f.read()
        except FileNotFoundError:
            return None
        finally:
            fs.active = act
        for d in (disk, old):
            if d is not None:
                t = d[0] if isinstance(d[0], bytes) else d[0].encode()
                if raw == t:
                    return d
        kind = disk[1]
        rejected(sim, zx, raw if kind == 'pickle' else raw.decode(errors='replace'), kind)
        # the torn file is of no use; the user goes back to an earlier copy
        return old
    finally:
        fs.active = act


def rejected(sim, zx, text, kind):
    try:
        h = pickle.loads(text) if kind == 'pickle' else zx.Graph.from_json(text)
    except Exception:
        sim.cover('torn file rejected')
        return
    sim.fail('torn save accepted', '%s file of %d characters read as a diagram with %d vertices' % (kind, len(text), h.num_vertices()))


def load(sim, zx, disk):
    text, kind, want, ten, tagged, cls = disk
    if kind == 'pickle':
        h = pickle.loads(text)
        what = 'pickle'
    else:
        to = sim.pick(['same', 'same', 'other'])
        target = {'GraphS': zx.Graph, 'Multigraph': zx.graph.multigraph.Multigraph}[cls if to == 'same' else ('GraphS' if cls == 'Multigraph' else 'Multigraph')]
        what = '%s to %s' % (cls, target.__name__)
        try:
            h = target.from_json(text)
        except Exception as e:
            if 'unreducible' in str(e) and any(a == b or n > 1 for (a, b, _), n in want[1].items()) | (len({k[:2] for k in want[1]}) < len(want[1])):
                sim.cover('backend cannot hold the parallel edges')
                raise Skip('parallel edges that cannot be simplified')
            sim.fail('cannot be loaded', '%s: %r: %s' % (what, e, text[:1500]), key='cannot be loaded: %s' % type(e).__name__)
    sim.log('loaded ' + what)
    sim.cover('load ' + what)
    if tagged:
        check(sim, zx, h, want, what, scalar=kind != 'bare')
        if sim.flag(0.3):
            with quiet_order():
                for v in sorted(h.vertices()):
                    h.set_vdata(v, 'uid', h.vdata(v, 'uid'))
    if ten is not None:
        with quiet_order():
            d = same(ten, graph_tensor(h), kind == 'bare')
        if d:
            sim.fail('meaning changed by save and load', '%s: %s' % (what, d))
    return h
