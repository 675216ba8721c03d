"""P18: hand-offs to external programs return the right object or raise, whatever the program and the disk do."""
import errno
import json
import os

from .. import gen, simfs, topt
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_tensor, same
from .p14 import Interrupt, read_tikz

ID = 'P18'
QUICK_RUNS = 6000
THOROUGH_RUNS = 200_000
RUN_TIMEOUT = 20
RULE = ('A run makes 1-3 exchanges: a random matrix handed to the TOpt stand-in (call_topt, or through todd_simp and phase_block_optimize), a circuit, diagram or '
        'text opened in the TikZiT stand-in, a diagram edited in the Quantomatic stand-in. The stand-in behaves, or is missing, exits non-zero, or leaves an '
        'empty, truncated, garbled, ragged, wrong or deleted answer; file operations of the exchange fail or tear; the exchange is interrupted. '
        'Non-trivial: an exchange finished, or a fault was injected.')
REAL = 'todd.call_topt / todd_simp / phase_block_optimize, tikz.tikzit, quantomatic.edit_graph, the file formats they use'
STUB = 'the external programs (stand-ins speaking their formats) and the file system (simulated faults over a scratch directory)'
ASSUME = ['A solver answer that is complete and well formed is taken as it is by call_topt; todd_simp checks that it is equivalent.',
          'When removing a temporary file fails, it may stay.']

GARBLE = ['edge to nowhere', 'unknown vertex type', 'bad phase', 'list', 'number', 'missing wires', 'binary']


def run(sim):
    import pyzx as zx
    sim.swarm()
    p = sim.pick([0.0, 0.0, 0.0, 0.05, 0.2])
    zx.settings.topt_command = None
    saved = zx.settings.tikzit_location, zx.settings.quantomatic_location
    try:
        for _ in range(sim.between(1, 3)):
            what = sim.pickw([('topt', 4), ('todd', 4), ('tikzit', 3), ('quantomatic', 4)])
            sim.cover(what)
            sim.tick()
            {'topt': x_topt, 'todd': x_todd, 'tikzit': x_tikzit, 'quantomatic': x_quantomatic}[what](sim, zx, p)
    finally:
        zx.settings.topt_command = None
        zx.settings.tikzit_location, zx.settings.quantomatic_location = saved
    if sim.faults:
        sim.nontrivial = True


def exchange(sim, what, fn, p, procs):
    """Runs fn under the simulated disk.  Returns (status, result, exception, fs)."""
    stop = Interrupt(None, None)
    if sim.flag(0.08):
        stop = Interrupt(sim.choose(sim.pick([5, 40, 400])), sim.pick([KeyboardInterrupt, MemoryError]))
    r = e = None
    import contextlib
    import io
    fs = simfs.SimFS(sim, p=p, budget=sim.between(1, 2), procs=procs)
    procs_owner = getattr(procs, 'attach', None)
    with fs:
        if procs_owner:
            procs_owner(fs)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                with stop:
                    r = fn()
            status = 'ok'
        except (KeyboardInterrupt, Exception) as x:
            if type(x).__name__ in ('Violation', 'Skip', 'HarnessError'):
                raise
            status, e = 'error', x
            x.__traceback__ = None
    if stop.fired:
        sim.count_fault('interrupt')
        sim.log('FAULT interrupted in %s' % stop.fired)
    sim.log('-> %s %s' % (status, ('%s: %s' % (type(e).__name__, e))[:160].replace(fs.scratch, '') if e is not None else ''))
    hidden = [f for f in fs.fired if f[0] in ('remove', 'unlink', 'rmdir', 'os.open', 'close')]     # rmtree opens the directory it removes
    if fs.files_left and not hidden:
        sim.fail('temporary files left behind', '%s after %s (%s): %s' % (what, status, type(e).__name__, fs.files_left),
                 key='temporary files left behind by %s' % what)
    return status, r, e, fs, bool(stop.fired)


# ---- TOpt ------------------------------------------------------------------------------------------------------------------
def matrix(sim):
    n = sim.between(1, sim.pick([3, 5, 8]))
    cols = []
    for _ in range(sim.between(1, sim.pick([3, 10, 20]))):
        c = [sim.choose(2) for _ in range(n)]
        if any(c) and c not in cols:
            cols.append(c)
    if not cols:
        cols = [[1] * n]
    return [list(r) for r in zip(*cols)]


class Recording(topt.Solver):
    last = None

    def __call__(self, args):
        rc, out = super().__call__(args)
        self.last = out
        return rc, out


def rows_of(out):
    """What a complete answer says, or None: read independently of the code under test."""
    try:
        t = out.decode()
    except UnicodeDecodeError:
        return None
    lines = t.split('\n')
    try:
        i = next(k for k, l in enumerate(lines) if l.startswith('Output gate'))
        j = next(k for k, l in enumerate(lines) if l.startswith('Successful'))
    except StopIteration:
        return None
    rows = [l.strip() for l in lines[i + 1:j] if l.strip()]
    if not rows or any(set(r) - {'0', '1'} for r in rows) or len({len(r) for r in rows}) != 1:
        return None
    return [[int(x) for x in r] for r in rows]


def x_topt(sim, zx, p):
    from pyzx.linalg import Mat2
    from pyzx import todd
    rows = matrix(sim)
    sim.log('topt %s' % rows)
    solver = Recording(sim, sim.pick([0.0, 0.3, 0.7]))
    zx.settings.topt_command = ['topt']
    m = Mat2([list(r) for r in rows])
    try:
        st, r, e, fs, stopped = exchange(sim, 'call_topt', lambda: todd.call_topt(m, quiet=sim.flag()), p, solver)
    finally:
        zx.settings.topt_command = None
    if [list(map(int, x)) for x in m.data] != rows:
        sim.fail('argument modified', 'call_topt changed the matrix it was given')
    bad = solver.bad
    if st == 'ok':
        got = [[int(x) for x in row] for row in r.data]
        want = rows_of(solver.last) if solver.last is not None else None
        if solver.last is None or 'exit' in bad:
            sim.fail('failure not reported', 'call_topt returned %s although the program did not succeed (%s)' % (got, bad), key='failure not reported by call_topt: %s' % (bad or 'not run'))
        if want is None or len(want) != len(rows):
            sim.fail('failure not reported', 'the answer was unusable (%s) but call_topt returned %s\n%r' % (bad, got, solver.last), key='failure not reported by call_topt: %s' % bad)
        if got != want:
            sim.fail('answer not returned faithfully', 'program printed %s, call_topt returned %s' % (want, got), key='answer not returned faithfully')
        sim.nontrivial = True
    elif not bad and not fs.fired and not stopped:
        sim.fail('exchange failed', 'call_topt raised %s: %s although nothing went wrong\n%r' % (type(e).__name__, e, solver.last), key='call_topt failed')


def x_todd(sim, zx, p):
    from pyzx import todd
    n = sim.between(2, sim.pick([3, 4, 5]))
    how = sim.pick(['todd_simp', 'phase_block_optimize'])
    menu = ['CNOT', 'T', 'S', 'CZ'] if how == 'todd_simp' else ['CNOT', 'T', 'S', 'CZ', 'HAD', 'NOT', 'SWAP']
    with quiet_order():
        c = gen.circuit(sim, n, n, sim.pick([10, 25, 50]), 't', sim.pick([menu, ['CNOT', 'T', 'T'], ['CNOT', 'T', 'CZ', 'S']]), gmin=1)
        c = c.to_basic_gates()
        U = circuit_unitary(c)
    sim.log('%s %s' % (how, gen.circ_text(c)[:400]))
    solver = Recording(sim, sim.pick([0.0, 0.2, 0.6]))
    zx.settings.topt_command = ['topt']
    before = [str(g) for g in c.gates]

    def fn():
        if how == 'phase_block_optimize':
            return zx.phase_block_optimize(c, quiet=True)
        gates, perm = todd.todd_simp([g for g in c.gates], n, quiet=True)
        d = zx.Circuit(n)
        for g in gates:
            d.add_gate(g)
        return d, perm
    try:
        st, r, e, fs, stopped = exchange(sim, how, fn, p, solver)
    finally:
        zx.settings.topt_command = None
    if [str(g) for g in c.gates] != before:
        sim.fail('argument modified', '%s changed the circuit it was given' % how)
    if st == 'ok':
        if 'exit' in solver.bad or 'missing' in solver.bad:
            sim.fail('failure not reported', '%s returned a circuit although the program failed (%s)' % (how, solver.bad), key='failure not reported by %s' % how)
        sim.nontrivial = True
        with quiet_order():
            if how == 'todd_simp':
                d, perm = r
                d = d.copy()
                V = permuted(circuit_unitary(d), perm, n)
            else:
                V = circuit_unitary(r)
            diff = same(U, V, True)
        if diff:
            sim.fail('wrong circuit returned', '%s (solver %s): %s\nwas %s' % (how, solver.bad or 'good', diff, gen.circ_text(c)), key='wrong circuit from %s' % how)
    elif not solver.bad and not fs.fired and not stopped and not solver.inflated:
        sim.fail('exchange failed', '%s raised %s: %s although nothing went wrong' % (how, type(e).__name__, e), key='%s failed' % how)


def permuted(U, perm, n):
    """Unitary followed by relabelling the outputs: qubit i of the original is found at perm[i]."""
    import numpy as np
    t = U.reshape([2] * n + [U.shape[-1]] if U.ndim == 2 else U.shape)
    order = list(range(n))
    if perm:
        order = [perm.get(i, i) for i in range(n)]
    t = np.transpose(t, order + list(range(n, t.ndim)))
    return t.reshape(U.shape)


# ---- TikZiT ----------------------------------------------------------------------------------------------------------------
class Viewer:
    def __init__(self, sim, p_bad):
        self.sim, self.p_bad, self.bad, self.seen, self.args = sim, p_bad, [], None, None

    def __call__(self, args):
        self.args = list(args)
        f = args[-1]
        k = self.sim.deviate('fault', 4, self.p_bad) if self.p_bad else 0
        if os.path.exists(f):
            with simfs._real_open(f, encoding='utf-8') as h:
                self.seen = h.read()
        if k:
            bad = ['', 'missing', 'exit', 'interrupted'][k]
            self.sim.count_fault('tikzit:' + bad)
            self.bad.append(bad)
            if bad == 'missing':
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', args[0])
            if bad == 'exit':
                return 3, b''
            raise KeyboardInterrupt()
        return 0, b''


def small_graph(sim, zx):
    if sim.flag(0.5):
        c = gen.circuit(sim, 1, 3, 12, 't', None, gmin=1)
        return c.to_graph()
    return gen.any_diagram(sim, 't')[0]


def x_tikzit(sim, zx, p):
    kind = sim.pick(['circuit', 'graph', 'text', 'text'])
    draw = sim.flag(0.3)
    with quiet_order():
        if kind == 'circuit':
            x = gen.circuit(sim, 1, 3, 12, 't', sim.pick([None, ['CNOT', 'HAD', 'T', 'TOF', 'CCZ']]), gmin=1)
            want = circuit_unitary(x)
        elif kind == 'graph':
            x = small_graph(sim, zx)
            want = graph_tensor(x)
            before = gen.canon(x)
        else:
            x = ''.join(sim.pick(['\\begin{tikzpicture}\n', 'a line\n', '\t\\node [style=Z dot] (0) at (0, 0) {$\\pi$};\n', '% α ⊗ ψ\n', '\n', 'no newline']) for _ in range(sim.choose(30)))
    present = not sim.flag(0.12)
    zx.settings.tikzit_location = '/bin/true' if present else sim.pick(['', None, '/no/such/tikzit', 'no-such-tikzit'])
    v = Viewer(sim, sim.pick([0.0, 0.3]))
    st, r, e, fs, stopped = exchange(sim, 'tikzit', lambda: zx.tikz.tikzit(x, draw), p, v)
    if kind == 'graph':
        with quiet_order():
            if gen.canon(x) != before:
                sim.fail('argument modified', 'tikzit changed the diagram it was given')
    if st == 'ok':
        if not present or v.bad or v.args is None:
            sim.fail('failure not reported', 'tikzit returned although the program %s' % (v.bad or 'is not there'), key='failure not reported by tikzit')
        sim.nontrivial = True
    elif present and not v.bad and not fs.fired and not stopped:
        sim.fail('exchange failed', 'tikzit raised %s: %s' % (type(e).__name__, e), key='tikzit failed')
    if not present and v.args is not None:
        sim.fail('exchange failed', 'a program was started without a location: %s' % v.args)
    if v.args is None:
        return
    if v.seen is None:
        sim.fail('hand-off', 'the program was started without its input file: %s' % v.args[-1:])
    if v.args[0] != '/bin/true':
        sim.fail('hand-off', 'started %s' % v.args[0])
    if kind == 'text':
        if v.seen != x:
            sim.fail('hand-off', 'the program was handed %r instead of %r' % (v.seen[:300], x[:300]), key='tikzit: wrong text handed over')
        return
    if kind != 'circuit' or draw:
        return              # TikZ does not say which boundary is an input; a drawn scalar is one more node
    with quiet_order():
        try:
            h = read_tikz(zx, v.seen)
        except Exception as y:
            sim.fail('hand-off', 'what the program was handed cannot be read: %s\n%s' % (y, v.seen), key='tikzit: unreadable hand-over')
        n = x.qubits
        bs = sorted((w for w in h.vertices() if h.type(w) == 0), key=h.row)
        if len(bs) != 2 * n:
            sim.fail('hand-off', 'the program was handed a picture with %d open ends for %d qubits\n%s' % (len(bs), n, v.seen), key='tikzit: different circuit handed over')
        h.set_inputs(tuple(sorted(bs[:n], key=h.qubit)))
        h.set_outputs(tuple(sorted(bs[n:], key=h.qubit)))
        T = graph_tensor(h).reshape(2 ** n, 2 ** n)
        d = same(T / (abs(T).max() or 1), want.T, True)
    if d:
        sim.fail('hand-off', 'the program was handed a different circuit: %s\n%s' % (d, v.seen), key='tikzit: different circuit handed over')


# ---- Quantomatic -----------------------------------------------------------------------------------------------------------
class Editor:
    """Saves the diagram it is told to; may misbehave."""
    def __init__(self, sim, zx, new, p_bad):
        self.sim, self.zx, self.new, self.p_bad = sim, zx, new, p_bad
        self.bad, self.seen, self.args = [], None, None

    def __call__(self, args):
        sim = self.sim
        self.args = list(args)
        f = args[-1]
        try:
            with simfs._real_open(f) as h:
                self.seen = h.read()
        except FileNotFoundError:
            pass
        kinds = ['missing', 'exit', 'interrupted', 'deleted', 'empty', 'truncated'] + GARBLE
        k = sim.deviate('fault', 1 + len(kinds), self.p_bad) if self.p_bad else 0
        bad = kinds[k - 1] if k else None
        sim.cover('editor:%s' % (bad or ('saved' if self.new else 'closed')))
        if bad:
            sim.count_fault('quantomatic:' + bad)
            sim.log('FAULT quantomatic %s' % bad)
            self.bad.append(bad)
        if bad == 'missing':
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', args[0])
        text = self.new if self.new is not None else self.seen
        seed = sim.choose(1 << 16)
        if bad == 'deleted':
            simfs._os['remove'](f)
            return 0, b''
        if bad == 'empty':
            text = ''
        elif bad == 'truncated':
            text = text[:seed % len(text)]
        elif bad == 'list':
            text = '[]'
        elif bad == 'number':
            text = '3'
        elif bad in GARBLE and bad != 'binary':
            d = json.loads(text)
            if bad == 'edge to nowhere':
                d.setdefault('undir_edges', {})['extra'] = {'src': 'nowhere', 'tgt': 'nowhere2'}
            elif bad == 'unknown vertex type':
                d.setdefault('node_vertices', {})['extra'] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'frob', 'value': ''}}
            elif bad == 'bad phase':
                d.setdefault('node_vertices', {})['extra'] = {'annotation': {'coord': [0, 0]}, 'data': {'type': 'Z', 'value': '\\pi/\\sqrt{:'}}
            elif bad == 'missing wires':
                d.pop('wire_vertices', None)
                d.pop('node_vertices', None)
                if not d.get('undir_edges'):
                    d['undir_edges'] = {'e': {'src': 'v0', 'tgt': 'b0'}}
            text = json.dumps(d)
        if bad != 'interrupted' or seed % 2:
            with simfs._real_open(f, 'wb') as h:
                h.write(b'\xff\xfe\x9f' + text.encode() if bad == 'binary' else text.encode())
        if bad == 'interrupted':
            raise KeyboardInterrupt()
        if bad == 'exit':
            return 1, b''
        return 0, b''


def x_quantomatic(sim, zx, p):
    with quiet_order():
        g = small_graph(sim, zx)
        before = gen.canon(g)
        new = None
        if sim.flag(0.7):
            h = small_graph(sim, zx)
            if sim.flag(0.3):
                h = g.copy()
                zx.simplify.spider_simp(h, quiet=True)
            new = zx.io.graph_to_json(h)
        else:
            h = g
        want = graph_tensor(h)
        mine = graph_tensor(g)
    present = not sim.flag(0.1)
    zx.settings.quantomatic_location = __file__ if present else sim.pick([None, '', '/no/such/quantomatic.jar'])
    ed = Editor(sim, zx, new, sim.pick([0.0, 0.3, 0.6]))
    sim.log('edit %s -> %s' % (gen.describe(g, 14), gen.describe(h, 14) if new else 'unchanged'))
    st, r, e, fs, stopped = exchange(sim, 'edit_graph', lambda: zx.quantomatic.edit_graph(g), p, ed)
    with quiet_order():
        if gen.canon(g) != before:
            sim.fail('argument modified', 'edit_graph changed the diagram it was given')
    if not present and ed.args is not None:
        sim.fail('exchange failed', 'a program was started without a location: %s' % ed.args)
    if ed.args is not None:
        if ed.seen is None:
            sim.fail('hand-off', 'the program was started without its input file: %s' % ed.args)
        with quiet_order():
            d = same(mine, graph_tensor(zx.io.json_to_graph(ed.seen)), False)
        if d:
            sim.fail('hand-off', 'the program was handed a different diagram: %s\n%s' % (d, gen.describe(g)), key='edit_graph: different diagram handed over')
    if st == 'ok':
        if not present or ed.bad or ed.args is None:
            sim.fail('failure not reported', 'edit_graph returned %s although the program: %s' % (gen.describe(r), ed.bad or 'is not there'),
                     key='failure not reported by edit_graph: %s' % ed.bad)
        if r is g:
            sim.fail('answer not returned faithfully', 'edit_graph returned its argument')
        with quiet_order():
            d = same(want, graph_tensor(r), False)
        if d:
            sim.fail('answer not returned faithfully', 'saved %s\nreturned %s\n%s' % (gen.describe(h), gen.describe(r), d), key='edit_graph: different diagram returned')
        sim.nontrivial = True
    elif present and not ed.bad and not fs.fired and not stopped:
        sim.fail('exchange failed', 'edit_graph raised %s: %s' % (type(e).__name__, e), key='edit_graph failed')
