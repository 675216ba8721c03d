"""P11: a primary streams recorded differences over a faulty network to replicas that log, snapshot, crash and recover."""
import copy
import json
import pickle
from fractions import Fraction
from .. import sessions
from ..core import HarnessError, Skip, Violation
from ..seams import quiet_order
from ..semantics import graph_tensor, same
from ..simfs import SimFS, Crash
from .p10 import fp_graph

ID = 'P11'
QUICK_RUNS = 5000
THOROUGH_RUNS = 250_000
RULE = ('A run is a replicated editing session: a primary applies 2-12 bursts of edits, rewrites and strategies to a diagram (both native '
        'backends, Z/X/H/Z-box/W vertices, grounds, symbolic phases, annotations) and sends the difference of every two versions as JSON '
        'over a network that loses, repeats and reorders; replicas append to a log, apply, snapshot, suffer disk errors and torn writes, crash '
        'and recover. Every difference is also applied directly, before and after serialisation, between neighbouring and distant versions. '
        'Non-trivial: a difference that changed something was applied by a replica.')
REAL = 'graph.diff, graph.jsonparser (phases, encoder, decoder), graph backends, simplify and basicrules as editors'
STUB = 'network, disk and replica processes are simulated; snapshots are pickles of the real diagram'
ASSUME = ['The primary does not mutate a diagram while a difference is being computed.', 'Vertex data is of kinds JSON can carry (plus complex numbers and fractions).']


def norm_phase(p):
    if hasattr(p, 'terms') and not any(t.vars for c, t in p.terms):
        p = Fraction(sum(c for c, t in p.terms))
    if isinstance(p, (int, Fraction)):
        return str(p % 2)
    terms = [(c if t.vars else c % 2, t) for c, t in p.terms]
    return 'sym ' + ' + '.join(sorted('%s*%s' % (c, t) for c, t in terms if c))


def norm_value(x):
    # numbers that compare equal are the same annotation
    return ('number', complex(x)) if isinstance(x, (int, float, complex, Fraction)) else repr(x)


def state(g):
    """Everything a replica must have in common with the primary."""
    with quiet_order():
        d = fp_graph(g)
        for k in ('phase tracking', 'backend', 'variable types'):
            d.pop(k)
        d['vertices'] = {v: (int(g.type(v)), norm_phase(g.phase(v)), float(g.qubit(v)), float(g.row(v)), bool(g.is_ground(v))) for v in g.vertices()}
        s = g.scalar
        d['scalar'] = (s.power2, norm_phase(s.phase), tuple(norm_phase(p) for p in s.phasenodes), complex(s.floatfactor), bool(s.is_unknown), bool(s.is_zero))
        used = set()
        for v in g.vertices():
            p = g.phase(v)
            if hasattr(p, 'free_vars'):
                used |= {(x.name, bool(x.is_bool)) for x in p.free_vars()}
        d['variables'] = used
        d['vdata'] = {v: {k: norm_value(g.vdata(v, k)) for k in g.vdata_keys(v)} for v in g.vertices() if len(list(g.vdata_keys(v)))}
        d['inputs'], d['outputs'] = list(g.inputs()), list(g.outputs())
        return d


def compare(sim, what, want, g):
    got = state(g)
    if got != want:
        diff = [k for k in want if want[k] != got[k]]
        det = []
        for k in diff:
            a, b = want[k], got[k]
            if isinstance(a, dict):
                ks = [x for x in list(a) + [y for y in b if y not in a] if a.get(x) != b.get(x)]
                det.append('%s: %s' % (k, ['%s: %s != %s' % (x, a.get(x), b.get(x)) for x in ks[:4]]))
            else:
                det.append('%s: %s != %s' % (k, a, b))
        sim.fail('difference lost something', '%s: %s' % (what, '; '.join(det)), key='difference lost %s' % ', '.join(diff))


class Replica:
    """Process state (lost in a crash) plus files snapshot and log."""
    def __init__(self, sim, fs, name, g, zx):
        self.sim, self.fs, self.name = sim, fs, name
        self.snap, self.log_ = fs.work + '/%s.snap' % name, fs.work + '/%s.log' % name
        fs.active = False
        with open(self.snap, 'wb') as f:
            f.write(pickle.dumps((0, g)))
        fs.active = True
        self.up = False
        self.crashes = 0
        self.buf = {}

    def save(self):
        tmp = self.snap + '.new'
        import os
        try:
            with open(tmp, 'wb') as f:
                f.write(pickle.dumps((self.seq, self.g)))
            os.replace(tmp, self.snap)
        except OSError as e:
            self.sim.log('%s snapshot failed: %s' % (self.name, type(e).__name__))
            return
        self.sim.cover('snapshot')

    def recover(self, records):
        """Reload the snapshot, then the log written since."""
        from pyzx.graph.diff import GraphDiff
        fs, sim = self.fs, self.sim
        act, fs.active = fs.active, False
        with open(self.snap, 'rb') as f:
            self.seq, self.g = pickle.loads(f.read())
        try:
            with open(self.log_) as f:
                text = f.read()
        except FileNotFoundError:
            text = ''
        fs.active = act
        self.buf = {}
        good = []
        lines = text.split('\n')
        for i, l in enumerate(lines):
            if not l:
                continue
            n, _, js = l.partition(' ')
            whole = n.isdigit() and int(n) < len(records) and js == records[int(n)]
            try:
                d = GraphDiff.from_json(js)
            except Exception:
                if whole:
                    sim.fail('logged difference unreadable', js[:300])
                sim.cover('torn record rejected')
                break
            if not whole:
                sim.fail('torn difference accepted', 'a record cut short is read as a difference: %s' % js[:300])
            if int(n) == self.seq:
                self.g = d.apply_diff(self.g)
                self.seq += 1
                sim.cover('replayed from log')
            good.append(l)
        # the torn tail is cut off
        act, fs.active = fs.active, False
        with open(self.log_, 'w') as f:
            f.write(''.join(x + '\n' for x in good))
        fs.active = act
        self.up = True
        sim.log('%s recovered at %d' % (self.name, self.seq))

    def deliver(self, n, js):
        from pyzx.graph.diff import GraphDiff
        if n < self.seq:
            self.sim.cover('duplicate ignored')
            return
        self.buf[n] = js
        while self.seq in self.buf:
            js = self.buf.pop(self.seq)
            d = GraphDiff.from_json(js)
            try:
                with open(self.log_, 'a') as f:
                    f.write('%d %s\n' % (self.seq, js))
            except OSError as e:
                # cannot tell how much reached the log: start over from durable state
                self.sim.log('%s log failed: %s' % (self.name, type(e).__name__))
                self.up = False
                return
            self.g = d.apply_diff(self.g)
            self.seq += 1
            self.sim.tick()


def run(sim):
    import pyzx as zx
    from pyzx.graph.diff import GraphDiff
    sim.swarm()
    g, how = sessions.start(sim)
    sim.cover('start ' + how)
    versions = [g.clone()]
    states = [state(g)]
    records = []
    changed = 0
    with SimFS(sim, p=sim.pick([0, 0, 0.03, 0.1]), budget=sim.pick([1, 3]), crash=True) as fs:
        reps = [Replica(sim, fs, 'r%d' % i, g, zx) for i in range(sim.pick([1, 1, 2]))]
        for r in reps:
            r.recover(records)
        net = []           # (replica index, seq)
        steps = sim.between(2, 12)
        done = 0
        quiet = False
        for tick in range(400):
            if done >= steps:
                if all(r.up and r.seq == len(records) for r in reps) and not net:
                    break
                quiet = True          # faults stop; everything outstanding is retransmitted
                fs.p = 0
            acts = [('edit', 8 if done < steps else 0), ('net', 10 if net else 0), ('snap', 2), ('crash', 0 if quiet else 1), ('retry', 4)]
            act = sim.pickw([a for a in acts if a[1]])
            if act == 'edit':
                done += 1
                what = [sessions.step(sim, g) for _ in range(sim.between(1, 3))]
                sim.log('edit: ' + ', '.join(what))
                new = g.clone()
                want = state(new)
                with quiet_order():
                    before = state(versions[-1])
                d = GraphDiff(versions[-1], new)
                compare(sim, 'computing a difference changed the newer graph', want, new)
                h = d.apply_diff(versions[-1])
                compare(sim, 'apply_diff after ' + ', '.join(what), want, h)
                try:
                    js = d.to_json()
                except Exception as e:
                    sim.fail('difference cannot be written', '%r after %s' % (e, what), key='cannot be written: %r' % e)
                try:
                    d2 = GraphDiff.from_json(js)
                except Exception as e:
                    sim.fail('difference cannot be read', '%r: %s' % (e, js[:600]), key='cannot be read: %s' % type(e).__name__)
                h = d2.apply_diff(versions[-1])
                compare(sim, 'written, read and applied after ' + ', '.join(what), want, h)
                compare(sim, 'apply_diff changed its argument', before, versions[-1])
                if want != before:
                    changed += 1
                versions.append(new)
                states.append(want)
                records.append(js)
                for i in range(len(reps)):
                    net.append((i, len(records) - 1))
                if len(versions) > 2 and sim.flag(0.3):
                    a, b = sim.choose(len(versions)), sim.choose(len(versions))
                    d = GraphDiff(versions[a], versions[b])
                    if sim.flag():
                        d = GraphDiff.from_json(d.to_json())
                    compare(sim, 'difference of versions %d and %d' % (a, b), states[b], d.apply_diff(versions[a]))
                    sim.cover('distant versions')
                if sim.flag(0.15) and small(g):
                    with quiet_order():
                        x = same(graph_tensor(new), graph_tensor(h))
                    if x:
                        sim.fail('difference changes the map', x)
                # a message cut short on the way is never taken for a difference
                if sim.flag(0.3):
                    k = sim.choose(len(js))
                    sim.count_fault('truncated message')
                    try:
                        GraphDiff.from_json(js[:k])
                    except Exception:
                        pass
                    else:
                        sim.fail('truncated difference accepted', '%d of %d characters: %s' % (k, len(js), js[:k]))
            elif act == 'net':
                k = sim.choose(len(net)) if not quiet else 0
                if not quiet and sim.fault('message lost', 0.1):
                    net.pop(k)
                    continue
                if not quiet and sim.fault('message repeated', 0.1):
                    i, n = net[k]
                else:
                    i, n = net.pop(k)
                r = reps[i]
                if not r.up:
                    continue
                fs.crashed = False
                try:
                    r.deliver(n, records[n])
                except Crash:
                    die(sim, r)
                if r.up:
                    check_replica(sim, r, states)
            elif act == 'snap':
                r = sim.pick(reps)
                if r.up:
                    fs.crashed = False
                    try:
                        r.save()
                    except Crash:
                        die(sim, r)
            elif act == 'crash':
                r = sim.pick(reps)
                if r.up and sim.fault('replica crash', 0.5):
                    die(sim, r)
            elif act == 'retry':
                for i, r in enumerate(reps):
                    if not r.up and (quiet or sim.flag()):
                        fs.crashed = False
                        r.recover(records)
                        check_replica(sim, r, states)
                    if r.up and r.seq < len(records) and not any(x == (i, r.seq) for x in net):
                        net.append((i, r.seq))
            sim.tick()
        else:
            raise HarnessError('replicas did not catch up')
        for r in reps:
            check_replica(sim, r, states)
    sim.nontrivial = changed > 0


def small(g):
    return (g.num_vertices() <= 14 and len(g.inputs()) + len(g.outputs()) <= 6 and not g.is_hybrid() and sessions.numeric(g) and not g.scalar.is_unknown
            and not any(int(g.type(v)) in (3, 4) for v in g.vertices())
            and all(g.vertex_degree(v) == 1 for v in g.vertices() if int(g.type(v)) == 0)
            and sum(1 for v in g.vertices() if int(g.type(v)) == 0) == len(g.inputs()) + len(g.outputs()))


def die(sim, r):
    sim.log('%s crashed' % r.name)
    r.up = False
    r.g = None
    r.buf = {}
    r.crashes += 1


def check_replica(sim, r, states):
    if r.up:
        compare(sim, 'replica %s at version %d (%d crashes)' % (r.name, r.seq, r.crashes), states[r.seq], r.g)
