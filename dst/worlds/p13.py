"""P13: the notebook editor and its front end, connected by delayed messages, under rewrites, undo, redo, paste, reloads and failures."""
import io
import json
import math
import sys
from collections import Counter
from fractions import Fraction
from .. import gen, sessions
from ..core import HarnessError, Skip, Violation, product_frame
from ..seams import quiet_order
from ..semantics import graph_tensor, same
from .p11 import norm_phase, norm_value

ID = 'P13'
QUICK_RUNS = 5000
THOROUGH_RUNS = 250_000
RULE = ('A run is one editor session: the real widget class and its traits on one side, a model of the JavaScript front end (drawing, moving, '
        'deleting, retyping phases, selecting, buttons, undo/redo, copy/paste, snapshots) on the other, joined by two message queues whose '
        'delivery the scheduler delays and interleaves at will. Faults: rewrite rules, clipboard and TikZiT failing, malformed messages, the '
        'page being reloaded with messages in flight, kernel-side edits. After every message the diagram is compared with a reference history '
        'and (small diagrams) by tensor. Non-trivial: a rewrite or front-end edit changed the diagram and was undone.')
REAL = 'editor.ZXEditorWidget with ipywidgets traits, editor_actions, rules, hrules, tikz, graph backend'
STUB = 'browser front end (model of zx_editor_model.js), message channel, clipboard, TikZiT, IPython display'
ASSUME = ['Channels deliver in order and lose messages only when the page is reloaded.',
          'An edit made in the browser while a newer diagram is on its way to it may be dropped, but both sides must agree afterwards.',
          'Users do not draw diagrams that mean nothing (boundaries with several wires, half W nodes).']

BOX = {}


def setup():
    import comm
    import pyperclip
    import pyzx
    import importlib

    class Channel(comm.base_comm.BaseComm):
        def publish_msg(self, msg_type, data=None, **kw):
            if BOX.get('sink') is not None and msg_type == 'comm_msg':
                BOX['sink'](self, data)

        def __del__(self):
            pass
    make = lambda *a, **k: Channel(*a, **k)
    comm.create_comm = make
    import ipywidgets
    from ipywidgets.widgets import widget
    for nm in ('create_comm',):
        if hasattr(widget, nm):
            setattr(widget, nm, make)
    if hasattr(widget, 'comm') and hasattr(widget.comm, 'create_comm'):
        widget.comm.create_comm = make
    pyzx.utils.settings.mode = 'notebook'
    import pyzx.editor as E
    importlib.reload(E)
    E.display = lambda *a, **k: None
    BOX['E'] = E
    BOX['widgets'] = ipywidgets

    def paste():
        if BOX['clip_fail']:
            BOX['clip_fail'] = False
            raise pyperclip.PyperclipException('no clipboard')
        return BOX['clip']

    def copy(s):
        if BOX['clip_fail']:
            BOX['clip_fail'] = False
            raise pyperclip.PyperclipException('no clipboard')
        BOX['clip'] = s
    pyperclip.paste, pyperclip.copy = paste, copy
    from pyzx import tikz

    def tikzit(*a, **k):
        BOX['tikzit'] = a
        if BOX['tikz_fail']:
            BOX['tikz_fail'] = False
            raise FileNotFoundError('tikzit')
    tikz.tikzit = tikzit


# ---- what the diagram is ---------------------------------------------------------------------
def state(g, io_=True):
    with quiet_order():
        V = {}
        for v in g.vertices():
            vd = {k: norm_value(g.vdata(v, k)) for k in g.vdata_keys(v)}
            ty = int(g.type(v))
            if ty == 6:
                vd['label'] = norm_value(g.vdata(v, 'label', 1))
            V[v] = dict(type=ty, phase=norm_phase(g.phase(v)), row=float(g.row(v)), qubit=float(g.qubit(v)), ground=bool(g.is_ground(v)), data=vd)
        E = {}
        for e in g.edges():
            a, b = g.edge_st(e)
            E[(min(a, b), max(a, b))] = int(g.edge_type(e))
        s = g.scalar
        sc = (s.power2, norm_phase(s.phase), tuple(norm_phase(p) for p in s.phasenodes), complex(s.floatfactor), bool(s.is_unknown), bool(s.is_zero))
        r = dict(V=V, E=E, scalar=sc)
        if io_:
            r['inputs'], r['outputs'] = list(g.inputs()), list(g.outputs())
        return r


def copy_state(s):
    r = dict(s, V={v: dict(d, data=dict(d['data'])) for v, d in s['V'].items()}, E=dict(s['E']))
    for k in ('inputs', 'outputs'):
        if k in s:
            r[k] = list(s[k])
    return r


def differs(a, b, pos=True):
    """Description of the first difference, or None."""
    if set(a['V']) != set(b['V']):
        return 'vertices %s / %s' % (sorted(set(a['V']) - set(b['V'])), sorted(set(b['V']) - set(a['V'])))
    for v in a['V']:
        x, y = a['V'][v], b['V'][v]
        for k in x:
            if k in ('row', 'qubit'):
                if pos and abs(x[k] - y[k]) > 1e-6:
                    return '%s of %s: %s / %s' % (k, v, x[k], y[k])
            elif x[k] != y[k]:
                return '%s of %s: %s / %s' % (k, v, x[k], y[k])
    if a['E'] != b['E']:
        return 'edges %s / %s' % (sorted(set(a['E'].items()) - set(b['E'].items()))[:5], sorted(set(b['E'].items()) - set(a['E'].items()))[:5])
    for k in ('inputs', 'outputs', 'scalar'):
        if k in a and k in b and a[k] != b[k]:
            return '%s %s / %s' % (k, a[k], b[k])
    return None


def what_of(d):
    w = (d or '').split(' of ')[0].split(' ')[0]
    return w


SUBST = {'a': 0.37, 'b': 1.21, 'c': 0.83, 'theta': 0.59}


def meaning(g):
    """Tensor over all boundary vertices in order of their numbers, or None when there is none to speak of."""
    with quiet_order():
        vs = list(g.vertices())
        if g.is_hybrid() or len(vs) > 26 or g.scalar.is_unknown:
            return None
        b = sorted(v for v in vs if int(g.type(v)) == 0)
        if len(b) > 8 or any(len(list(g.incident_edges(v))) != 1 for v in b):
            return None
        class View:
            pass
        h = View()
        for nm in ('vertices', 'edges', 'type', 'phase', 'edge_st', 'edge_type', 'vdata'):
            setattr(h, nm, getattr(g, nm))
        h.scalar = g.scalar
        h.inputs = lambda: tuple(b)
        h.outputs = lambda: ()
        try:
            sub = {k: (round(x) if g.variable_types.get(k) else x) for k, x in SUBST.items()}
            return graph_tensor(h, subst=sub)
        except Skip:
            return None
        except Violation:
            return None


# ---- the front end ----------------------------------------------------------------------------
class Front:
    """zx_editor_model.js / zx_editor_widget.js: what a user can do and what is sent."""
    def __init__(self, S, st, seq):
        self.S, self.sim = S, S.sim
        self.model = dict(st)
        self.shadow = copy_state(seq[1])
        self.seen = seq[0]
        self.opts = json.loads(st['graph_buttons'])
        self.graph_changed()

    def graph_changed(self):
        g = json.loads(self.model['graph_json'])
        try:
            sel = json.loads(self.model['graph_selected'])
            sel['nodes'][:], sel['links'][:]
        except (ValueError, KeyError, TypeError):
            sel = {'nodes': [], 'links': []}
        self.rest = {k: v for k, v in g.items() if k not in ('nodes', 'links', 'scalar')}
        self.nodes, self.links = g['nodes'], g['links']
        names = {n['name'] for n in self.nodes}
        self.max_name = max(names, default=-1)
        self.sel = {n['name'] for n in sel['nodes']} & names
        ends = {(l['source'], l['target']) for l in self.links}
        self.lsel = {(l['source'], l['target']) for l in sel['links']} & ends

    def receive(self, st, tag):
        self.model.update(st)
        if 'graph_json' in st:
            self.shadow = copy_state(tag[1])
            self.seen = tag[0]
        if 'graph_buttons' in st:
            self.opts = json.loads(st['graph_buttons'])
        if 'graph_json' in st or 'graph_selected' in st:
            self.graph_changed()

    def send(self, note=None, **ch):
        ch = {k: v for k, v in ch.items() if self.model.get(k) != v}
        if not ch:
            return
        self.model.update(ch)
        self.S.up.append((ch, note))

    def strip(self, nodes, links):
        d = {'links': [{k: l[k] for k in ('source', 'target', 't')} for l in links],
             'nodes': [{k: n[k] for k in ('name', 'x', 'y', 't', 'phase')} for n in nodes]}
        d.update(self.rest)
        return json.dumps(d, separators=(',', ':'))

    def push(self, desc):
        self.S.pushes += 1
        self.send(note=('push', copy_state(self.shadow), self.seen), graph_json=self.strip(self.nodes, self.links), last_operation=desc)
        self.sim.log('front end: %s' % desc)

    def select(self):
        self.send(graph_selected=self.strip([n for n in self.nodes if n['name'] in self.sel],
                                            [l for l in self.links if (l['source'], l['target']) in self.lsel]))

    def deg(self, v):
        return sum(v in (l['source'], l['target']) for l in self.links)

    def act(self):
        sim, S = self.sim, self.S
        T = {n['name']: n['t'] for n in self.nodes}
        spid = [n for n in self.nodes if n['t'] in (1, 2, 3)]
        op = sim.pickw([('button', 6), ('select', 4), ('undo', 3), ('redo', 2), ('move', 2), ('phase', 2), ('vertex', 1), ('edge', 2), ('delete', 1),
                        ('copy', 1), ('paste', 1), ('snapshot', 1), ('tikzit', 1), ('click', 1)])
        if op == 'button':
            act = [k for k in sorted(self.opts) if self.opts[k].get('active')] if sim.flag(0.85) else sorted(self.opts)
            if act:
                self.send(button_clicked=sim.pick(act))
        elif op == 'select':
            if sim.flag(0.35):
                self.sel = {n['name'] for n in self.nodes}
            else:
                self.sel = set(sim.subset(sorted(n['name'] for n in self.nodes), sim.pick([0.2, 0.5, 0.8])))
            self.lsel = set(sim.subset(sorted((l['source'], l['target']) for l in self.links), sim.pick([0.0, 0.3, 0.7])))
            self.select()
        elif op in ('undo', 'redo', 'copy', 'paste', 'snapshot', 'tikzit'):
            self.send(action=op)
        elif op == 'move':
            dx, dy = sim.pick([(3, 0), (0, -7.5), (12.25, 1 / 3)])
            for n in self.nodes:
                if n['name'] in self.sel:
                    n['x'] += dx
                    n['y'] += dy
                    d = self.shadow['V'][n['name']]
                    d['row'] = n['x'] / S.scale - 1
                    d['qubit'] = n['y'] / S.scale - 2
            self.push('Moved selection')
        elif op == 'click':          # a click is a drag of no distance
            self.push('Moved selection')
        elif op == 'phase' and spid:
            n = sim.pick(spid)
            h = n['t'] == 3
            txt, val = sim.pick([('', 1 if h else 0), ('\u03c0/2', Fraction(1, 2)), ('-\u03c0/4', Fraction(7, 4)), ('3\u03c0/4', Fraction(3, 4)), ('\u03c0/3', Fraction(1, 3)),
                                 ('5\u03c0/2', Fraction(1, 2)), ('7\u03c0/300', Fraction(7, 300))] + ([('0', 0)] if h else [('\u03c0', 1)]))
            if txt == '' and n['phase'] == '':
                return
            n['phase'] = txt
            self.shadow['V'][n['name']]['phase'] = norm_phase(Fraction(val))
            self.push('Changed phase')
        elif op == 'vertex':
            self.max_name += 1
            t = sim.pick([1, 2, 0, 3])
            x, y = sim.pick([30.0, 75.5]), sim.pick([110.0, 201.25])
            self.nodes.append({'name': self.max_name, 't': t, 'x': x, 'y': y, 'phase': ''})
            self.shadow['V'][self.max_name] = dict(type=t, phase='1' if t == 3 else '0', row=x / S.scale - 1, qubit=y / S.scale - 2, ground=False, data={})
            self.push('Added vertex')
        elif op == 'edge':
            c = [n['name'] for n in self.nodes if n['t'] in (1, 2, 3, 6) or n['t'] == 0 and self.deg(n['name']) == 0]
            if len(c) < 2:
                return
            a, b = sim.shuffled(c)[:2]
            t = sim.pick([1, 2])
            for l in self.links:
                if {l['source'], l['target']} == {a, b}:
                    l['t'] = t
                    break
            else:
                self.links.append({'source': a, 'target': b, 't': t})
            self.shadow['E'][(min(a, b), max(a, b))] = t
            self.push('Added edge')
        elif op == 'delete':
            gone = {v for v in self.sel if T[v] not in (4, 5)}
            if len(gone) != len(self.sel):
                return
            lgone = {p for p in self.lsel if next(l['t'] for l in self.links if (l['source'], l['target']) == p) != 3}
            if any(T[x] in (4, 5) and x not in gone for l in self.links for x in (l['source'], l['target'])
                   if (l['source'], l['target']) in lgone or l['source'] in gone or l['target'] in gone):
                return
            self.nodes = [n for n in self.nodes if n['name'] not in gone]
            self.links = [l for l in self.links if l['source'] not in gone and l['target'] not in gone and (l['source'], l['target']) not in lgone]
            sh = self.shadow
            sh['V'] = {v: d for v, d in sh['V'].items() if v not in gone}
            left = {(min(l['source'], l['target']), max(l['source'], l['target'])) for l in self.links}
            sh['E'] = {k: t for k, t in sh['E'].items() if k in left}
            for k in ('inputs', 'outputs'):
                if k in sh:
                    sh[k] = [v for v in sh[k] if v not in gone]
            self.push('Delete')
            self.sel, self.lsel = set(), set()
            self.select()


class Session:
    def __init__(self, sim):
        self.sim = sim
        self.up, self.down = [], []
        self.pushes = 0
        self.nmsg = 0
        self.kernel_seq = 0

    def fail(self, kind, msg, key=None):
        self.sim.fail(kind, msg, key)

    # -- kernel side --
    def sink(self, comm_, data):
        if comm_ is not self.w.comm or not isinstance(data, dict) or data.get('method') != 'update':
            return
        self.out.append(dict(data['state']))

    def held(self):
        return state(self.w.graph, self.io_)

    def selection_exists(self, st):
        try:
            js = json.loads(self.w.graph_selected)
            return {n['name'] for n in js['nodes']} <= set(st['V']) and all((min(l['source'], l['target']), max(l['source'], l['target'])) in st['E'] for l in js['links'])
        except (ValueError, KeyError, TypeError):
            return False

    def shown(self, what):
        """The traits shared with the front end must describe the diagram held."""
        st = self.held()
        try:
            js = json.loads(self.w.graph_json)
            V = {n['name']: n for n in js['nodes']}
            E = {(min(l['source'], l['target']), max(l['source'], l['target'])): l['t'] for l in js['links']}
            bad = None
            if set(V) != set(st['V']) or len(js['nodes']) != len(V) or len(js['links']) != len(E):
                bad = 'vertices %s, held %s' % (sorted(V), sorted(st['V']))
            elif E != st['E']:
                bad = 'edges %s, held %s' % (sorted(E.items()), sorted(st['E'].items()))
            for v in () if bad else V:
                n, d = V[v], st['V'][v]
                if n['t'] != d['type'] or abs(n['x'] / self.scale - 1 - d['row']) > 1e-6 or abs(n['y'] / self.scale - 2 - d['qubit']) > 1e-6:
                    bad = 'vertex %s sent as %s, held %s' % (v, n, d)
                elif not d['phase'].startswith('sym') and not text_ok(n['phase'], Fraction(d['phase']), d['type']):
                    bad = 'phase of %s sent as %r, held %s' % (v, n['phase'], d['phase'])
        except (ValueError, KeyError, TypeError) as e:
            bad = 'unreadable: %s %s' % (type(e).__name__, e)
        if bad:
            self.fail('front end shows another diagram', 'after %s: %s' % (what, bad), key='front end shows another diagram')
        return st

    def note_change(self, st, what):
        if differs(self.hist[self.at], st):
            self.hist = self.hist[:self.at + 1] + [st]
            self.at += 1
            self.changed = True

    def deliver_up(self):
        ch, note = self.up.pop(0)
        sim, w, zx = self.sim, self.w, self.zx
        before = self.held()
        op = ch.get('button_clicked')
        action = ch.get('action')
        tb = meaning(w.graph) if op or action in ('copy', 'snapshot', 'tikzit', 'paste') else None
        faulty = None
        E = BOX['E']
        ops = getattr(E, 'operations', None)
        undo_patch = []
        if op and ops and op in ops and sim.fault('rewrite fails', self.pf):
            faulty = sim.pick(['before', 'after', 'edges'])
            real = ops[op]['rule']

            def broken(g, m):
                if faulty == 'before':
                    raise MemoryError('injected')
                r = real(g, m)
                if faulty == 'after':
                    raise MemoryError('injected')
                g0 = w.graph
                orig = g0.add_edge_table

                def aet(*a, **k):
                    del g0.add_edge_table
                    raise MemoryError('injected')
                g0.add_edge_table = aet
                return r
            ops[op]['rule'] = broken
            undo_patch.append(lambda: ops[op].__setitem__('rule', real))
        if action in ('copy', 'paste') and sim.fault('clipboard fails', self.pf):
            BOX['clip_fail'] = faulty = True
        if action == 'tikzit' and sim.fault('tikzit fails', self.pf):
            BOX['tikz_fail'] = faulty = True
        snaps = len(w.snapshots)
        self.sel_ok = self.selection_exists(before)
        self.out = []
        buf = io.StringIO()
        old = sys.stdout
        sys.stdout = buf
        try:
            w.comm.handle_msg({'content': {'data': {'method': 'update', 'state': ch, 'buffer_paths': []}}, 'buffers': []})
        except (Violation, Skip, HarnessError):
            raise
        except Exception as e:
            fr = product_frame(e.__traceback__)
            if fr is None:
                raise
            self.fail('message handler fails', '%r: %s: %s at %s' % (ch, type(e).__name__, e, fr), key='message handler fails %s' % type(e).__name__)
        finally:
            sys.stdout = old
            for f in undo_patch:
                f()
            w.graph.__dict__.pop('add_edge_table', None)
        self.nmsg += 1
        what = op or action or (note[0] if note else 'selection' if 'graph_selected' in ch else 'message')
        text = buf.getvalue()
        sim.tick()
        sim.log('kernel handled %s -> %d vertices, %d edges' % (what, w.graph.num_vertices(), w.graph.num_edges()))
        if w.graph is not self.g:
            self.fail('editor lost the diagram', 'e.graph is another object after %s' % what)
        st = self.shown(what)
        crashed = 'Traceback' in text and 'injected' not in text and 'PyperclipException' not in text
        d = differs(before, st)
        if note and note[0] == 'bad':
            if d:
                self.fail('malformed message applied', '%s changed %s' % (note[1], d), key='malformed message applied')
        elif note and note[0] == 'push':
            want = note[1]
            x = differs(want, st)
            stale = note[2] != self.kernel_seq
            if x and not stale:
                self.fail('front-end edit not applied', 'the diagram edited in the front end and the one held differ: %s%s' % (x, text[-600:]),
                          key='front-end edit not applied: %s' % what_of(x))
            if x and d:
                self.fail('front-end edit corrupts', 'an outdated message leaves neither the old nor the edited diagram: %s; %s%s' % (x, d, text[-600:]),
                          key='front-end edit corrupts: %s' % what_of(x))
            if stale:
                sim.cover('outdated edit')
            self.note_change(st, what)
        elif op:
            if crashed and self.sel_ok and not text.strip().splitlines()[-1].startswith(('ValueError: Attempted to add unreducible', 'AssertionError')):
                tl = text.strip().splitlines()
                self.fail('rewrite crashes', '%s: %s' % (op, text[-900:]), key='rewrite crashes: %s %s' % (op, tl[-1].split(':')[0]))
            if faulty and d:
                self.fail('failed rewrite damages', '%s failed %s and left %s' % (op, faulty, d), key='failed rewrite damages')
            if d:
                sim.cover('rewrite ' + op)
                if self.io_ and (before['inputs'] != st['inputs'] or before['outputs'] != st['outputs']):
                    self.fail('rewrite changes inputs', '%s: %s' % (op, d))
                ta = meaning(w.graph)
                if tb is not None and ta is not None:
                    x = same(tb, ta) if max(abs(tb).max(), abs(ta).max()) > 1e-6 else None
                    if x:
                        y = same(tb, ta, up_to_scalar=True) if max(abs(tb).max(), abs(ta).max()) > 1e-6 else None
                        self.fail('rewrite changes meaning' if y else 'rewrite changes scalar', '%s: %s\nbefore %s\nafter %s' % (op, y or x, before, st),
                                  key='rewrite changes %s: %s' % ('meaning' if y else 'scalar', op))
                    sim.cover('meaning compared')
            self.note_change(st, op)
        elif action == 'undo':
            if self.at:
                self.at -= 1
                if self.changed:
                    self.undone = True
            x = differs(self.hist[self.at], st)
            if x:
                self.fail('undo inexact', 'expected / held: %s%s' % (x, text[-500:]), key='undo inexact: %s' % what_of(x))
            sim.cover('undo')
        elif action == 'redo':
            if self.at < len(self.hist) - 1:
                self.at += 1
                sim.cover('redo')
            x = differs(self.hist[self.at], st)
            if x:
                self.fail('redo inexact', 'expected / held: %s%s' % (x, text[-500:]), key='redo inexact: %s' % what_of(x))
        elif action == 'paste' and d:
            for v, dd in before['V'].items():
                if st['V'].get(v) != dd:
                    self.fail('paste damages', 'vertex %s was %s is %s' % (v, dd, st['V'].get(v)))
            for e, t in before['E'].items():
                if st['E'].get(e) != t:
                    self.fail('paste damages', 'edge %s' % (e,))
            if any((a in before['V'] or b in before['V']) and (a, b) not in before['E'] for a, b in st['E']):
                self.fail('paste damages', 'pasted part is connected to the diagram')
            if self.io_ and (before['inputs'] != st['inputs'][:len(before['inputs'])] or before['outputs'] != st['outputs'][:len(before['outputs'])]):
                self.fail('paste damages', 'inputs or outputs: %s' % d)
            new = Counter((x['type'], x['phase']) for v, x in st['V'].items() if v not in before['V'])
            if self.clipped is not None and new != self.clipped:
                self.fail('paste differs from copy', 'copied %s pasted %s' % (self.clipped, new))
            sim.cover('paste')
            self.note_change(st, 'paste')
        else:
            if d:
                self.fail('diagram changed unasked', 'after %s: %s' % (what, d), key='diagram changed unasked: %s' % what)
            if action == 'copy' and not faulty and not crashed:
                self.clipped = None
                sel = {n['name'] for n in json.loads(w.graph_selected)['nodes']}
                if sel <= set(st['V']):
                    c = Counter((st['V'][v]['type'], st['V'][v]['phase']) for v in sel)
                    places = {(round(st['V'][v]['row'], 2), round(st['V'][v]['qubit'], 2)) for v in sel}
                    hads = [e for e, t in st['E'].items() if t == 2 and set(e) <= sel and 0 in (st['V'][e[0]]['type'], st['V'][e[1]]['type'])]
                    if len(places) == len(sel) and not hads and all(t in (0, 1, 2) and not p.startswith('sym') for t, p in c):
                        self.clipped = c
                sim.cover('copy')
            if action == 'snapshot' and not faulty:
                if len(w.snapshots) != snaps + 1:
                    self.fail('snapshot lost', '%s%s' % (len(w.snapshots), text[-500:]))
                ts = meaning(w.snapshots[-1])
                if ts is not None and tb is not None and w.snapshots[-1] is not w.graph:
                    self.snap = (len(w.snapshots) - 1, state(w.snapshots[-1]))
        if action and faulty is None and crashed and action in ('undo', 'redo', 'snapshot'):
            self.fail('action crashes', '%s: %s' % (action, text[-600:]))
        if op is not None and w.button_clicked or action is not None and w.action:
            self.fail('control stays pressed', 'after %s button=%r action=%r' % (what, w.button_clicked, w.action), key='control stays pressed')
        self.flush(st)

    def flush(self, st):
        for x in self.out:
            if 'graph_json' in x:
                self.kernel_seq += 1
            self.down.append((x, (self.kernel_seq, st)))
        self.out = []

    def kernel_edit(self):
        """The user works on e.graph in another cell and calls e.update()."""
        sim, g = self.sim, self.g
        for _ in range(1 + sim.choose(2)):
            n = sessions.step(sim, g)
            if n == 'io' and not self.io_:
                raise Skip('inputs are found by the editor in this run')
            sim.log('kernel edit: %s' % n)
        if any(int(g.type(v)) == 0 and len(list(g.incident_edges(v))) > 1 for v in g.vertices()):
            raise Skip('meaningless drawing')
        self.out = []
        self.w.update()
        st = self.shown('update')
        self.note_change(st, 'update')
        self.flush(st)
        sim.cover('kernel edit')

    def malformed(self):
        sim, F = self.sim, self.front
        js = json.loads(F.strip(F.nodes, F.links))
        k = sim.pick(['json', 'phase', 'double edge', 'dangling', 'twice', 'missing', 'type', 'nan', 'selection', 'button', 'action', 'empty'])
        ch = None
        if k == 'json':
            s = json.dumps(js)
            ch = s[:sim.choose(len(s))]
        elif k == 'phase' and js['nodes']:
            sim.pick(js['nodes'])['phase'] = sim.pick(['\u03c0/0', '1//2', 'x', '\u03c0/e', '1.5.2', '-'])
        elif k == 'double edge' and js['links']:
            l = dict(sim.pick(js['links']))
            if sim.flag():
                l['source'], l['target'] = l['target'], l['source']
            js['links'].append(l)
        elif k == 'dangling':
            if not js['nodes']:
                return
            js['links'].append({'source': sim.pick(js['nodes'])['name'], 'target': 991, 't': 1})
        elif k == 'twice' and js['nodes']:
            js['nodes'].append(dict(sim.pick(js['nodes'])))
        elif k == 'missing':
            del js[sim.pick(['nodes', 'links'])]
        elif k == 'type' and js['nodes']:
            sim.pick(js['nodes'])['t'] = sim.pick([9, 'Z', None, -1])
        elif k == 'nan' and js['nodes']:
            sim.pick(js['nodes'])['x'] = sim.pick([None, 'abc', {}])
        elif k == 'selection':
            self.up.append(({'graph_selected': sim.pick(['', '{', '{"nodes":[{"name":991}],"links":[]}', '{"nodes":[],"links":[{"source":991,"target":992,"t":1}]}',
                                                         '[]', '{"nodes":3}'])}, ('bad', k)))
            sim.count_fault('malformed message')
            return
        elif k == 'button':
            self.up.append(({'button_clicked': 'no such rule'}, ('bad', k)))
            sim.count_fault('malformed message')
            return
        elif k == 'action':
            self.up.append(({'action': 'explode'}, ('bad', k)))
            sim.count_fault('malformed message')
            return
        else:
            return
        self.up.append(({'graph_json': json.dumps(js) if ch is None else ch}, ('bad', k)))
        sim.count_fault('malformed message')
        sim.log('malformed message: %s' % k)

    def reload(self):
        """The page is reloaded: messages on their way are lost, the new page starts from the widget's state."""
        self.up = self.up[:self.sim.choose(len(self.up) + 1)]
        while self.up:
            self.deliver_up()
        self.down = []
        st = {k: getattr(self.w, k) for k in ('graph_json', 'graph_selected', 'graph_buttons', 'button_clicked', 'last_operation', 'action')}
        self.front = Front(self, st, (self.kernel_seq, self.held()))
        self.sim.count_fault('page reloaded')
        self.sim.log('page reloaded')

    def drain(self):
        n = 0
        while self.up or self.down:
            while self.up:
                self.deliver_up()
            while self.down:
                self.front.receive(*self.down.pop(0))
            n += 1
            if n > 20:
                self.fail('editor does not settle', 'messages keep going to and fro')
        st = self.held()
        x = differs(self.front.shadow, st)
        if x:
            self.fail('front end shows another diagram', 'at rest, shown / held: %s' % x, key='front end shows another diagram at rest')
        names = {n['name'] for n in self.front.nodes}
        if names != set(st['V']):
            self.fail('front end shows another diagram', 'at rest, shown %s held %s' % (sorted(names), sorted(st['V'])), key='front end shows another diagram at rest')


def text_ok(txt, val, ty):
    s = txt.replace('\u03c0', '')
    try:
        if txt == '':
            return val == (1 if ty == 3 else 0)
        if txt[0] == '~':
            s = s[1:]
            a = Fraction('1' + s) if s.startswith('/') else Fraction(s) if s else Fraction(1)
            return abs(float(a - val)) < 0.01 or abs(abs(float(a - val)) - 2) < 0.01
        a = Fraction(1) if s == '' else Fraction(-1) if s == '-' else Fraction('1' + s) if s.startswith('/') else Fraction('-1' + s[1:]) if s.startswith('-/') else Fraction(s)
        return (a - val) % 2 == 0
    except ValueError:
        return False


def run(sim):
    import pyzx as zx
    sim.swarm()
    E = BOX['E']
    BOX.update(clip='', clip_fail=False, tikz_fail=False, sink=None, tikzit=None)
    kinds = [('any', 6), ('graph', 7), ('zbox', 2), ('w', 2), ('h', 4), ('empty', 1), ('hybrid', 1)]
    g, how = sessions.start(sim, kinds=kinds)
    if type(g).__name__ != 'GraphS' or g.num_vertices() > 22:
        raise Skip('not for the editor')
    S = Session(sim)
    S.zx, S.g = zx, g
    show = sim.flag(0.1)
    S.io_ = not show
    S.pf = sim.pick([0.0, 0.0, 0.1, 0.4])
    preload = sim.pick([0.3, 0.6, 0.9])
    sim.log('start: %s' % how)
    before = meaning(g)
    st0 = state(g, S.io_)
    w = E.edit(g, scale=sim.pick([None, 20, 33.3, 50]), show_matrix=show, show_scalar=sim.flag(0.2))
    S.w = w
    S.scale = g.scale
    S.out = []
    BOX['sink'] = S.sink
    x = differs(st0, S.held())
    if x:
        sim.fail('opening the editor changes the diagram', x)
    S.hist, S.at, S.changed, S.undone = [st0], 0, False, False
    S.clipped, S.snap = None, None
    S.shown('opening')
    S.front = Front(S, {k: getattr(w, k) for k in ('graph_json', 'graph_selected', 'graph_buttons', 'button_clicked', 'last_operation', 'action')}, (0, st0))
    try:
        for i in range(40 + sim.choose(60) if sim.flag(0.06) else 6 + sim.choose(24)):
            x = sim.pickw([('act', 10), ('up', 8), ('down', 8), ('drain', 2), ('kernel', 1), ('bad', 1 if S.pf else 0), ('reload', 1 if S.pf else 0), ('clip', 1)])
            if x == 'act':
                S.front.act()
                if sim.flag(preload):
                    S.drain()
            elif x == 'up' and S.up:
                S.deliver_up()
            elif x == 'down' and S.down:
                S.front.receive(*S.down.pop(0))
            elif x == 'drain':
                S.drain()
            elif x == 'kernel' and sim.flag(0.4):
                S.kernel_edit()
            elif x == 'bad':
                S.malformed()
            elif x == 'reload' and sim.flag(0.5):
                S.reload()
            elif x == 'clip' and sim.flag(0.3):
                S.clipped = None
                h, _ = gen.any_diagram(sim, 't', qmax=2, gmax=5, vmax=4)
                t = h.to_tikz() if all(int(h.type(v)) < 4 for v in h.vertices()) else ''
                BOX['clip'] = sim.pick([t, '', 'hello', t[:sim.choose(len(t) + 1)], '\\begin{tikzpicture}\n\\end{tikzpicture}'])
            if w.graph.num_vertices() > 60:
                break
        S.drain()
        # Once everything has been delivered, undo leads all the way back and redo all the way forth
        S.front.model['action'] = ''
        for how in ('undo', 'redo'):
            for _ in range(len(S.hist)):
                S.front.send(action=how)
                S.drain()
        if S.snap:
            x = differs(S.snap[1], state(w.snapshots[S.snap[0]]))
            if x:
                sim.fail('snapshot changes', x)
        sim.nontrivial = S.undone
    finally:
        BOX['sink'] = None
        sim.log('%d messages, %d steps in history' % (S.nmsg, len(S.hist)))
