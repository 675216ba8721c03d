"""P14: the command-line tools on a simulated disk, with failing calls, torn writes, crashes, interrupts and a closed output pipe."""
import math
import os
import re
import sys
from fractions import Fraction
import numpy as np
from .. import gen, simfs, topt
from ..core import Skip, Violation, product_frame
from ..seams import quiet_order, PKG
from ..semantics import circuit_unitary, graph_tensor, perm_matrix, same

ID = 'P14'
QUICK_RUNS = 5000
THOROUGH_RUNS = 250_000
RULE = ('A run is one process that executes 1-4 commands (optimise, convert to TikZ, generate CNOT or phase-polynomial circuits, map a CNOT circuit) '
        'on a simulated directory with bystander files; sources are written by an independent printer in all four formats, destinations may be new, '
        'existing, or the source itself. Per operation the scheduler may fail opening, reading, writing, flushing or closing, tear a write, kill the '
        'process, interrupt it at a call, or break the output pipe. Non-trivial: a destination was written and checked or a fault fired.')
REAL = 'pyzx.scripts (all commands), circuit parsers and printers, simplify, extract, optimize, tikz, generate, routing.cnot_mapper, argparse'
STUB = 'the disk, stdout, process death, the TOpt executable, random streams'
ASSUME = ['Malformed sources other than unknown gates and wrong file types are undefined by the documentation and not generated.',
          'A tool reports a failure by raising, exiting with a non-zero status, or printing a message that does not announce an output file.']
RUN_TIMEOUT = 20


# ---- independent printers -------------------------------------------------------------------------------------------
def frac_str(sim, ph):
    """an OpenQASM angle"""
    n, d = ph.numerator, ph.denominator
    k = sim.choose(4)
    if k == 0:
        return '%r*pi' % (n / d)
    if k == 1:
        return 'pi*%d/%d' % (n, d) if n else '0'
    if k == 2:
        return repr(math.pi * n / d)
    return '%d*pi/%d' % (n, d)


def to_qasm(sim, c):
    out = ['OPENQASM 2.0;', 'include "qelib1.inc";']
    if sim.flag(0.2):
        out.insert(1, '// a comment')
    regs = [('q', 0, c.qubits)]
    if c.qubits >= 2 and sim.flag(0.3):
        k = sim.between(1, c.qubits - 1)
        regs = [('a', 0, k), ('b', k, c.qubits - k)]
    for r, s, k in regs:
        out.append('qreg %s[%d];' % (r, k))

    def Q(i):
        for r, s, k in regs:
            if s <= i < s + k:
                return '%s[%d]' % (r, i - s)
    for g in c.gates:
        n = g.name
        if n in ('ZPhase', 'XPhase', 'YPhase'):
            s = '%s(%s) %s' % ({'Z': 'rz', 'X': 'rx', 'Y': 'ry'}[n[0]], frac_str(sim, g.phase), Q(g.target))
        elif n == 'S':
            s = ('sdg ' if g.adjoint else 's ') + Q(g.target)
        elif n == 'T':
            s = ('tdg ' if g.adjoint else 't ') + Q(g.target)
        elif n in ('HAD', 'NOT', 'Z'):
            s = {'HAD': 'h ', 'NOT': 'x ', 'Z': 'z '}[n] + Q(g.target)
        elif n in ('CNOT', 'CZ', 'SWAP'):
            s = {'CNOT': 'cx', 'CZ': 'cz', 'SWAP': 'swap'}[n] + ' %s,%s%s' % (Q(g.control), ' ' * sim.choose(2), Q(g.target))
        elif n in ('Tof', 'CCZ'):
            s = {'Tof': 'ccx', 'CCZ': 'ccz'}[n] + ' %s,%s,%s' % (Q(g.ctrl1), Q(g.ctrl2), Q(g.target))
        else:
            raise AssertionError(n)
        out.append(s + ';')
    if sim.flag(0.1):
        out.insert(len(regs) + 2, 'creg c[%d];' % c.qubits)
    if sim.flag(0.15) and len(out) > 4:
        out[-2:] = [out[-2] + ' ' + out[-1]]      # two statements on one line
    return '\n'.join(out) + '\n' * sim.choose(3)


def to_qc(sim, c):
    names = ['q%d' % i for i in range(c.qubits)] if sim.flag() else [chr(97 + i) for i in range(c.qubits)]
    sep = ',' if sim.flag(0.3) else ' '
    out = ['.v ' + sep.join(names), '.i ' + sep.join(names), '', 'BEGIN']
    if sim.flag(0.2):
        out.insert(0, '# a comment')
    for g in c.gates:
        n = g.name
        if n == 'S':
            s = [sim.pick(['S', 'P', 's']) + ('*' if g.adjoint else ''), g.target]
        elif n == 'T':
            s = ['T' + ('*' if g.adjoint else ''), g.target]
        elif n in ('HAD', 'NOT', 'Z'):
            s = [{'HAD': 'H', 'NOT': sim.pick(['tof', 'not', 'X', 't1']), 'Z': 'Z'}[n], g.target]
        elif n in ('CNOT', 'CZ', 'SWAP'):
            s = [{'CNOT': sim.pick(['tof', 'cnot', 't2']), 'CZ': sim.pick(['cz', 'Z']), 'SWAP': 'swap'}[n], g.control, g.target]
        elif n in ('Tof', 'CCZ'):
            s = [{'Tof': sim.pick(['tof', 't3']), 'CCZ': sim.pick(['ccz', 'Z'])}[n], g.ctrl1, g.ctrl2, g.target]
        else:
            raise AssertionError(n)
        out.append(' '.join([s[0]] + [names[i] for i in s[1:]]))
    return '\n'.join(out + ['END', ''])


def to_quipper(sim, c):
    ins = ', '.join('%d:Qbit' % i for i in range(c.qubits))
    out = ['Inputs: ' + ins]
    for g in c.gates:
        n = g.name
        w = ' with nocontrol' if sim.flag(0.3) else ''
        if n in ('ZPhase', 'XPhase'):
            out.append('QRot["exp(-i%%%s)",%r](%d)' % (n[0], float(g.phase) * math.pi / 2, g.target))
        elif n in ('S', 'T'):
            out.append('QGate["%s"]%s(%d)%s' % (n, '*' if g.adjoint else '', g.target, w))
        elif n in ('HAD', 'NOT', 'Z'):
            out.append('QGate["%s"](%d)%s' % ({'HAD': 'H', 'NOT': 'not', 'Z': 'Z'}[n], g.target, w))
        elif n in ('CNOT', 'CZ'):
            out.append('QGate["%s"](%d) with controls=[+%d]%s' % ({'CNOT': 'not', 'CZ': 'Z'}[n], g.target, g.control, w))
        elif n in ('Tof', 'CCZ'):
            out.append('QGate["%s"](%d) with controls=[+%d, +%d]%s' % ({'Tof': 'not', 'CCZ': 'Z'}[n], g.target, g.ctrl1, g.ctrl2, w))
        else:
            raise AssertionError(n)
    return '\n'.join(out + ['Outputs: ' + ins]) + ('\n' if sim.flag() else '')


def to_qsim(sim, c):
    out = [str(c.qubits)]
    for i, g in enumerate(c.gates):
        if g.name == 'ZPhase':
            out.append('%d rz %d %r' % (i, g.target, float(g.phase) * math.pi))
        else:
            out.append('%d x_1_2 %d' % (i, g.target))
    return '\n'.join(out) + '\n'


FORMATS = {
    'qasm': (['qasm'], to_qasm, ['ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'XPhase', 'YPhase', 'NOT', 'Z', 'SWAP', 'TOF', 'CCZ'], 'bogus q[0];'),
    'qc': (['qc', 'tfc'], to_qc, ['HAD', 'CNOT', 'CZ', 'S', 'T', 'NOT', 'Z', 'SWAP', 'TOF', 'CCZ'], None),
    'quipper': (['quipper', 'quip', 'quipasm'], to_quipper, ['ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'XPhase', 'NOT', 'Z', 'TOF', 'CCZ'], None),
    'qsim': (['qsim'], to_qsim, ['ZPhase', 'XP'], None),
}
# an extension that contains "quip" or "qasm" decides the format; a file without a known extension is recognised by its contents
FORMATS['quipper'][0].pop()


# ---- independent readers ---------------------------------------------------------------------------------------------
def angle(s):
    s = s.strip()
    if not re.fullmatch(r'[-+*/().\dpie\s]*', s):
        raise ValueError('angle ' + s)
    return Fraction(eval(s, {'__builtins__': {}}, {'pi': 1.0}) if 'pi' in s else float(s) / math.pi).limit_denominator(1 << 20)


def read_qasm(zx, text):
    st = [x.strip() for x in re.sub(r'//[^\n]*', '', text).split(';')]
    if st[-1]:
        raise ValueError('unterminated statement %r' % st[-1])
    regs, n = {}, 0
    if not st[0].startswith('OPENQASM'):
        raise ValueError('no header')
    ops = []
    for s in st[1:-1]:
        if s.startswith('include'):
            continue
        m = re.fullmatch(r'qreg\s+(\w+)\[(\d+)\]', s)
        if m:
            regs[m.group(1)] = n
            n += int(m.group(2))
            continue
        m = re.fullmatch(r'(\w+)\s*(?:\(([^()]*)\))?\s+(.*)', s)
        if not m:
            raise ValueError('statement %r' % s)
        qs = []
        for a in m.group(3).split(','):
            q = re.fullmatch(r'\s*(\w+)\[(\d+)\]\s*', a)
            qs.append(regs[q.group(1)] + int(q.group(2)))
        ops.append((m.group(1), m.group(2), qs))
    c = zx.Circuit(n)
    for nm, a, qs in ops:
        if nm in ('rz', 'rx', 'ry', 'p', 'u1'):
            c.add_gate({'rx': 'XPhase', 'ry': 'YPhase'}.get(nm, 'ZPhase'), qs[0], angle(a))
        elif nm in ('s', 'sdg', 't', 'tdg'):
            c.add_gate(nm[0].upper(), qs[0], adjoint=nm.endswith('dg'))
        else:
            c.add_gate({'h': 'HAD', 'x': 'NOT', 'z': 'Z', 'y': 'Y', 'sx': 'SX', 'cx': 'CNOT', 'cz': 'CZ', 'swap': 'SWAP', 'ccx': 'TOF', 'ccz': 'CCZ'}[nm], *qs)
    return c


def read_qc(zx, text):
    ls = [l.strip() for l in text.splitlines() if l.strip() and not l.startswith('#')]
    if 'BEGIN' not in ls or ls[-1] != 'END':
        raise ValueError('no BEGIN/END')
    lab = {}
    for l in ls[:ls.index('BEGIN')]:
        if l.startswith('.'):
            for v in l[2:].replace(',', ' ').split():
                lab.setdefault(v, len(lab))
    c = zx.Circuit(len(lab))
    for l in ls[ls.index('BEGIN') + 1:-1]:
        nm, *q = l.split()
        q = [lab[x] for x in q]
        b = nm.lower().rstrip('*')
        adj = nm.endswith('*')
        if b in ('s', 'p', 't') and len(q) == 1:
            c.add_gate('S' if b != 't' else 'T', q[0], adjoint=adj)
        elif len(q) == 1:
            c.add_gate({'h': 'HAD', 'x': 'NOT', 'not': 'NOT', 'tof': 'NOT', 't1': 'NOT', 'z': 'Z', 'y': 'Y'}[b], *q)
        elif len(q) == 2:
            c.add_gate({'cnot': 'CNOT', 'tof': 'CNOT', 't2': 'CNOT', 'cz': 'CZ', 'z': 'CZ', 'swap': 'SWAP'}[b], *q)
        else:
            c.add_gate({'tof': 'TOF', 't3': 'TOF', 'ccz': 'CCZ', 'z': 'CCZ'}[b], *q)
    return c


def read_quipper(zx, text):
    ls = [l.strip() for l in text.strip().splitlines()]
    if not ls[0].startswith('Inputs:') or not ls[-1].startswith('Outputs:'):
        raise ValueError('no Inputs/Outputs')
    c = zx.Circuit(len([x for x in ls[0][7:].split(',') if x.strip()]))
    if [x.strip() for x in ls[0][7:].split(',')] != [x.strip() for x in ls[-1][8:].split(',')]:
        raise ValueError('outputs differ from inputs')
    for l in ls[1:-1]:
        m = re.fullmatch(r'QRot\["exp\(-i%([ZX])\)",([^\]]*)\]\((\d+)\)(?: with nocontrol)?', l)
        if m:
            c.add_gate(m.group(1) + 'Phase', int(m.group(3)), Fraction(2 * float(m.group(2)) / math.pi).limit_denominator(1 << 20))
            continue
        m = re.fullmatch(r'QGate\["(\w+)"\](\*?)\((\d+)\)(?: with controls=\[([^\]]*)\])?(?: with nocontrol)?', l)
        if not m:
            raise ValueError('line %r' % l)
        t, cs = int(m.group(3)), [int(x.strip().lstrip('+')) for x in (m.group(4) or '').split(',') if x.strip()]
        nm = m.group(1)
        if nm in ('S', 'T'):
            c.add_gate(nm, t, adjoint=bool(m.group(2)))
        else:
            c.add_gate({('H', 0): 'HAD', ('not', 0): 'NOT', ('X', 0): 'NOT', ('Z', 0): 'Z', ('Y', 0): 'Y', ('not', 1): 'CNOT', ('X', 1): 'CNOT', ('Z', 1): 'CZ',
                        ('not', 2): 'TOF', ('Z', 2): 'CCZ', ('swap', 1): 'SWAP', ('Swap', 1): 'SWAP'}[nm, len(cs)], *(cs + [t]))
    return c


def read_tikz(zx, text):
    """What the picture shows: an unconnected Hadamard box in the middle of a wire sits on that wire."""
    if '\\begin{tikzpicture}' not in text or '\\end{tikzpicture}' not in text:
        raise ValueError('cut short')
    g = zx.Graph()
    V, pos, had = {}, {}, {}
    for l in text.splitlines():
        l = l.strip()
        m = re.fullmatch(r'\\node \[style=([^\]]*)\] \((\d+)\) at \(([-\d.]+), ([-\d.]+)\) \{(.*)\};', l)
        if m:
            st, i, x, y, lab = m.group(1).lower(), int(m.group(2)), float(m.group(3)), float(m.group(4)), m.group(5).strip('$')
            if i in V or i in had:
                raise ValueError('node %d twice' % i)
            if lab == '':
                ph = None
            else:
                f = re.fullmatch(r'\\frac\{(-?\d*)\\pi\}\{(\d+)\}', lab)
                k = re.fullmatch(r'(-?\d*)\\pi', lab)
                if f:
                    ph = Fraction(int(f.group(1) or 1), int(f.group(2)))
                elif k:
                    ph = Fraction(int(k.group(1) or 1))
                else:
                    ph = Fraction(lab)
            pos[i] = (x, -y)
            if st == 'hadamard':
                had[i] = ph
                continue
            ty = 0 if st == 'none' else 1 if st.startswith('z') else 2 if st.startswith('x') else None
            if ty is None:
                raise ValueError('style %s' % st)
            V[i] = g.add_vertex(zx.VertexType(ty), -y, x, ph or 0)
        elif l.startswith('\\node'):
            raise ValueError('line %r' % l)
    edges = []
    for l in text.splitlines():
        l = l.strip()
        if l.startswith('\\draw'):
            m = re.fullmatch(r'\\draw (?:\[style=([^\]]*)\] )?\((\d+)\) to \((\d+)\);', l)
            edges.append([int(m.group(2)), int(m.group(3)), 'hadamard' in (m.group(1) or '').lower()])
    linked = {x for a, b, _ in edges for x in (a, b)}
    for h, ph in had.items():
        if h in linked:
            V[h] = g.add_vertex(zx.VertexType.H_BOX, pos[h][1], pos[h][0], 1 if ph is None else ph)
            continue
        for e in edges:
            (x1, y1), (x2, y2) = pos[e[0]], pos[e[1]]
            if abs((x1 + x2) / 2 - pos[h][0]) < 0.02 and abs((y1 + y2) / 2 - pos[h][1]) < 0.02 and not e[2] and \
                    (g.type(V[e[0]]) == 0 or g.type(V[e[1]]) == 0):
                e[2] = True
                break
        else:
            raise ValueError('a Hadamard box on no wire')
    for a, b, h in edges:
        g.add_edge((V[a], V[b]), zx.EdgeType.HADAMARD if h else zx.EdgeType.SIMPLE)
    return g


READ = {'qasm': read_qasm, 'qc': read_qc, 'quipper': read_quipper}


# ---- the simulated terminal and interrupts -------------------------------------------------------------------------------
class Out:
    def __init__(self, sim, p):
        self.sim, self.p, self.text, self.broken = sim, p, '', False

    def write(self, s):
        if self.broken or (self.p and s.strip() and self.sim.fault('stdout:EPIPE', self.p)):
            self.broken = True
            raise BrokenPipeError(32, 'Broken pipe')
        self.text += s
        return len(s)

    def flush(self):
        if self.broken:
            raise BrokenPipeError(32, 'Broken pipe')

    def isatty(self): return False
    encoding = 'utf-8'


class Interrupt:
    """Raises at the n-th call of a pyzx function (Ctrl-C, or an allocation that fails)."""
    def __init__(self, n, exc):
        self.n, self.exc, self.fired = n, exc, None

    def __enter__(self):
        self.old = sys.gettrace()
        if self.n is not None:
            sys.settrace(self.trace)
        return self

    def trace(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(PKG):
            self.n -= 1
            if self.n < 0 and self.fired is None:
                self.fired = frame.f_code.co_qualname
                sys.settrace(None)
                raise self.exc('injected')
        return None

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


# ---- the world -------------------------------------------------------------------------------------------------------------
def run(sim):
    import pyzx as zx
    import pyzx.scripts as sc
    sim.swarm()
    p = sim.pick([0.0, 0.0, 0.05, 0.15, 0.3])
    out_p = sim.pick([0.0, 0.0, 0.0, 0.1])
    solver = topt.Solver(sim, sim.pick([0.0, 0.2]))
    zx.settings.topt_command = ['topt'] if sim.flag(0.2) else None
    try:
        with simfs.SimFS(sim, p=p, budget=sim.between(1, 2), crash=sim.flag(0.4), procs=solver) as fs:
            fs.put('bystander.qasm', 'OPENQASM 2.0;\n')
            fs.put('sub/other.txt', 'keep me')
            for i in range(sim.between(1, 4)):
                cmd = sim.pickw([('opt', 10), ('tikz', 4), ('cnots', 2), ('phasepoly', 2), ('map', 2), ('misuse', 1)])
                sim.cover('cmd:' + cmd)
                sim.tick()
                if not COMMANDS[cmd](sim, zx, sc, fs, out_p, i):
                    break
            if not fs.crashed:
                left = fs.listing(fs.tmp)
                if left and not sim.faults:
                    sim.fail('temporary files left behind', str(left))
    finally:
        zx.settings.topt_command = None
    if sim.faults:
        sim.nontrivial = True


def files(fs):
    return {f: None if f.endswith('/') else fs.get(f) for f in fs.listing()}


def execute(sim, sc, fs, argv, out_p, fn=None):
    """Runs a command.  Returns (how, text, interrupt): how is 'ok', 'error' or 'crash'."""
    sim.log('$ ' + ' '.join(argv))
    stop = Interrupt(None, None)
    if sim.flag(0.12):
        stop = Interrupt(sim.choose(3000), sim.pick([KeyboardInterrupt, MemoryError]))
    out = Out(sim, out_p)
    err = Out(sim, 0)
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    how, e = 'ok', None
    try:
        with stop:
            if fn:
                fn()
            else:
                sc.main(['pyzx'] + argv)
    except simfs.Crash:
        how = 'crash'
    except SystemExit as x:
        how, e = ('ok' if x.code in (None, 0) else 'error'), x
    except Violation:
        raise
    except (KeyboardInterrupt, Exception) as x:
        how, e = 'error', x
    finally:
        sys.stdout, sys.stderr = old
        e_text = '%s: %s' % (type(e).__name__, e) if e is not None else ''
        if isinstance(e, Exception):
            e.__traceback__ = None
        e_keep, e = e, None
    if stop.fired:
        sim.count_fault('interrupt')
        sim.log('FAULT interrupted in %s' % stop.fired)
    sim.log('-> %s %s' % (how, e_text[:160].replace(fs.scratch, '')))
    return how, out.text, stop.fired, err.text, e_keep


def announced(text):
    """Does what the tool printed say that an output file was written?"""
    return re.search(r'(?i)(writing output|output file|saving|written)', text) is not None


def judge(sim, fs, before, how, text, fired, dests, what, expect_fail, correct):
    """dests: the files this command may write.  correct(name, text): raises on a wrong file."""
    after = files(fs)
    strip = lambda rel: rel[5:] if rel.startswith('work/') else rel
    hit, fs.fired = fs.fired, []
    opened, fs.written = {strip(r) for r in fs.written}, set()
    for f in before:
        if f not in dests and after.get(f, 0) != before[f]:
            sim.fail('another file was damaged', '%s: %s' % (what, f))
    for f in after:
        if f not in before and f not in dests and not (f.endswith('/') and any(d.startswith(f) for d in dests)) and how == 'ok':
            sim.fail('stray file', '%s left %s' % (what, f))
    if how == 'ok':
        done = [d for d in dests if d in after and (d not in before or after[d] != before[d])]
        if expect_fail and (done or not text.strip()):
            sim.fail('bad input accepted', '%s reported success; it wrote %s' % (what, done))
        if expect_fail:
            return
        if done or announced(text) or not text.strip() or not (hit or fired):
            for d in dests:
                if d not in after:
                    sim.fail('success without a result', '%s: %s does not exist; printed %r' % (what, d, text[-200:].replace(fs.scratch, '')))
                correct(d, after[d])
            sim.nontrivial = True
            sim.cover('checked')
        return
    under_way = {strip(r) for w, r, k in hit if w in ('write', 'flush', 'close')}
    for d in dests:
        if after.get(d, 0) != before.get(d, 0):
            if d in under_way or (d in opened and (fired or 'stdout:EPIPE' in sim.faults)):
                sim.cover('torn')
                continue
            try:
                if expect_fail:
                    sim.fail('bad input', '')
                correct(d, after[d])          # finished before the failure came
            except Violation as v:
                sim.fail('destination damaged by a failed command', '%s: %s, which %s, now holds %r (%s)' % (
                    what, d, 'held %r' % (before[d] or '')[:60] if d in before else 'did not exist', (after.get(d) or '')[:80], v.msg[:80]))
    if not hit and not fired and not expect_fail and 'stdout:EPIPE' not in sim.faults:
        sim.cover('refused without a fault')
        return 'refused'


# ---- sources -----------------------------------------------------------------------------------------------------------------
def source(sim, zx, fs, i, formats=('qasm', 'qasm', 'qc', 'quipper', 'qsim')):
    """Writes a source file.  Returns name, format, circuit."""
    fmt = sim.pick(list(formats))
    exts, printer, menu, _ = FORMATS[fmt]
    kind = sim.pickw([('t', 4), ('c', 2), ('a', 2)]) if 'ZPhase' in menu else 't'
    n = sim.between(1, 5)
    c = zx.Circuit(n)
    k = sim.pick([3, 10, 25])
    ms = sim.subset(menu, 0.7) or menu
    if kind == 'c':
        ms = [m for m in ms if m not in ('T', 'TOF', 'CCZ')] or ['HAD'] if fmt != 'qsim' else ms
    for _ in range(sim.between(0, k)):
        m = sim.pick(ms)
        if m == 'XP':
            c.add_gate('XPhase', sim.choose(n), Fraction(1, 2))
        else:
            gen.add_gate(sim, c, m, n, kind)
    ext = sim.pick(exts)
    name = sim.pick(['in%d', 'sub/in%d', 'in.%d', 'noext%d']) % i
    if name.startswith('noext') and fmt != 'qsim':
        pass
    else:
        name += '.' + ext
    text = printer(sim, c)
    fs.put(name, text)
    sim.log('%s (%s): %s' % (name, fmt, gen.circ_text(c)[:600]))
    return name, fmt, c, text


BAD = {'qasm': 'bogus q[0];\n', 'qc': 'bogus q0\n', 'quipper': 'QGate["bogus"](0)\n', 'qsim': '7 bogus 0\n'}


def spoil(sim, fs, name, fmt, text):
    """An unknown gate somewhere in the source."""
    ls = text.splitlines(True)
    lo = {'qasm': 3, 'qc': 4, 'quipper': 1, 'qsim': 1}[fmt]
    hi = {'qasm': len(ls), 'qc': len(ls) - 1, 'quipper': len(ls) - 1, 'qsim': len(ls)}[fmt]
    if not ls[-1].endswith('\n'):
        ls[-1] += '\n'
    for k, l in enumerate(ls):
        if fmt == 'qc' and l.startswith('BEGIN'):
            lo = k + 1
        if fmt == 'qasm' and l.startswith('qreg'):
            lo = k + 1
    g = BAD[fmt]
    if fmt == 'qc':
        g = 'bogus ' + text[text.index('.v') + 2:].replace(',', ' ').split()[0] + '\n'
    if fmt == 'qasm':
        g = 'bogus ' + re.search(r'qreg (\w+)', text).group(1) + '[0];\n'
    ls.insert(lo + sim.choose(hi - lo + 1), g)
    fs.put(name, ''.join(ls))
    sim.log('spoiled: %r' % ''.join(ls)[-200:])


def unitary(c):
    with quiet_order():
        return circuit_unitary(c)


def same_circuit(sim, zx, U, fmt, text, what):
    try:
        with quiet_order():
            c = READ[fmt](zx, text)
    except Exception as e:
        sim.fail('incomplete or invalid output', '%s: %s: %r ... %r' % (what, e, text[:60], text[-60:]))
    V = unitary(c)
    if V.shape != U.shape:
        sim.fail('wrong number of qubits', '%s: %s for %s' % (what, V.shape, U.shape))
    if same(U, V, up_to_scalar=True):
        sim.fail('output denotes a different circuit', '%s: %s' % (what, gen.circ_text(c)[:300]))


# ---- commands -----------------------------------------------------------------------------------------------------------------
def cmd_opt(sim, zx, sc, fs, out_p, i):
    name, fmt, c, text = source(sim, zx, fs, i)
    U = unitary(c)
    argv = ['opt']
    expect_fail = False
    otype = fmt
    if sim.flag(0.4):
        otype = sim.pick(['qasm', 'qc', 'quipper'])
        argv += ['-t', otype]
    elif fmt == 'qsim':
        expect_fail = True           # there is no printer for this format
    if sim.flag(0.5):
        dest = sim.pick(['out.%s', 'sub/out.%s', 'missing/out.%s', 'out']).replace('%s', otype)
        if sim.flag(0.15):
            dest = name
        if dest.startswith('missing'):
            expect_fail = True
        if dest != name and sim.flag(0.4) and not dest.startswith('missing'):
            fs.put(dest, 'precious contents\n' * sim.pick([1, 400]))
        argv += ['-d', dest]
    else:
        dest = os.path.splitext(name)[0] + '.' + otype
        if dest != name and sim.flag(0.3):
            fs.put(dest, 'precious contents\n')
    if sim.flag(0.3):
        argv.append('-v')
    if sim.flag(0.5):
        argv += ['-g', sim.pick(['full', 'cliff', 'tele'])]
    if sim.flag(0.3):
        argv.append('-p')
    src = name
    bad = sim.pickw([('', 12), ('gate', 2), ('gone', 1), ('type', 1)])
    if bad == 'gate':
        spoil(sim, fs, name, fmt, text)
        expect_fail = True
    elif bad == 'gone':
        src = 'nowhere.qasm'
        if dest == name:
            fs.put(name, 'precious contents\n')
        else:
            dest = dest if '-d' in argv else 'nowhere.' + (otype if '-t' in argv else 'qasm')
        expect_fail = True
    elif bad == 'type' and '-t' in argv:
        argv[argv.index('-t') + 1] = 'pdf'
        dest = dest if '-d' in argv else os.path.splitext(name)[0] + '.pdf'
        expect_fail = True
    argv.insert(1, src) if sim.flag(0.7) else argv.append(src)
    before = files(fs)
    fs.fired, fs.written = [], set()
    how, text, fired, err, e = execute(sim, sc, fs, argv, out_p)
    r = judge(sim, fs, before, how, text, fired, [dest], 'opt', expect_fail, lambda d, t: same_circuit(sim, zx, U, otype, t, 'opt ' + d))
    if r == 'refused' and not may_refuse(argv, c, otype, solver_failed(sim)):
        sim.fail('a legal circuit was refused', '%s: %s' % (' '.join(argv), describe(e)))
    return how != 'crash'


def solver_failed(sim):
    return any(k.startswith('solver') for k in sim.faults)


def may_refuse(argv, c, otype, solver_bad):
    """Phases outside the pi/4 lattice have no representation in .qc, and the phase-polynomial optimiser is for Clifford+T."""
    fine = all(getattr(g, 'phase', None) is None or (4 * g.phase).denominator == 1 for g in c.gates)
    if solver_bad:
        return True
    return not fine and (otype == 'qc' or '-p' in argv)


def describe(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


def cmd_tikz(sim, zx, sc, fs, out_p, i):
    name, fmt, c, text = source(sim, zx, fs, i)
    expect_fail = False
    argv = ['tikz', name]
    dest = os.path.splitext(name)[0] + '.tikz'
    if sim.flag(0.5):
        dest = sim.pick(['pic.tikz', 'sub/pic.tikz', 'missing/pic.tikz'])
        if dest.startswith('missing'):
            expect_fail = True
        argv.append(dest)
    if sim.flag(0.4) and not dest.startswith('missing'):
        fs.put(dest, 'precious contents\n')
    bad = sim.pickw([('', 12), ('gate', 2), ('gone', 1)])
    if bad == 'gate':
        spoil(sim, fs, name, fmt, text)
        expect_fail = True
    elif bad == 'gone':
        argv[1] = 'nowhere.qasm'
        dest = dest if len(argv) > 2 else 'nowhere.tikz'
        expect_fail = True
    U = unitary(c)
    before = files(fs)
    fs.fired, fs.written = [], set()
    how, text, fired, err, e = execute(sim, sc, fs, argv, out_p)

    def correct(d, t):
        with quiet_order():
            try:
                g = read_tikz(zx, t)
            except Exception as x:
                sim.fail('incomplete or invalid output', 'tikz: %s: %s' % (type(x).__name__, x))
            bs = [v for v in g.vertices() if g.type(v) == 0]
            if len(bs) != 2 * c.qubits:
                sim.fail('incomplete or invalid output', 'tikz has %d open ends for %d qubits' % (len(bs), c.qubits))
            bs.sort(key=g.row)
            g.set_inputs(tuple(sorted(bs[:c.qubits], key=g.qubit)))
            g.set_outputs(tuple(sorted(bs[c.qubits:], key=g.qubit)))
            if c.qubits <= 4:
                T = graph_tensor(g).reshape(2 ** c.qubits, 2 ** c.qubits)
                T = T / (np.abs(T).max() or 1)          # the picture has no scalar, which can be large or small
                d = same(T, U.T, up_to_scalar=True)
                if d:
                    sim.fail('output denotes a different circuit', 'tikz of %s: %s' % (gen.circ_text(c)[:200], d))
    r = judge(sim, fs, before, how, text, fired, [dest], 'tikz', expect_fail, correct)
    if r == 'refused':
        sim.fail('a legal circuit was refused', '%s: %s' % (' '.join(argv), describe(e)))
    return how != 'crash'


def cmd_cnots(sim, zx, sc, fs, out_p, i):
    folder = sim.pick(['gen', 'gen/deep', 'sub'])
    qs = [sim.between(2, 6) for _ in range(sim.between(1, 2))]
    ds = [sim.between(0, 20) for _ in range(sim.between(1, 2))]
    m = sim.between(1, 3)
    argv = ['cnots', folder, '-q'] + list(map(str, qs)) + ['-m', str(m)]
    expect_fail = False
    if sim.flag(0.1):
        expect_fail = True
        ds = []
    else:
        argv += ['-d'] + list(map(str, ds))
    dests = {}
    for q in qs:
        for d in ds:
            for k in range(m):
                dests['%s/%dqubits/%d/Original%d.qasm' % (folder, q, d, k)] = (q, d)
    if dests and sim.flag(0.3):
        fs.put(sorted(dests)[0], 'precious contents\n')
    before = files(fs)
    fs.fired, fs.written = [], set()
    how, text, fired, err, e = execute(sim, sc, fs, argv, out_p)

    def correct(d, t):
        q, n = dests[d]
        try:
            with quiet_order():
                c = read_qasm(zx, t)
        except Exception as x:
            sim.fail('incomplete or invalid output', 'cnots: %s: %r' % (x, t[:100]))
        if c.qubits != q or len(c.gates) != n or any(g.name != 'CNOT' for g in c.gates):
            sim.fail('output denotes a different circuit', 'cnots: asked for %d CNOTs on %d qubits, got %s' % (n, q, gen.circ_text(c)[:200]))
    r = judge(sim, fs, before, how, text, fired, list(dests), 'cnots', expect_fail, correct)
    if r == 'refused':
        sim.fail('a legal request was refused', '%s: %s %s' % (' '.join(argv), describe(e), err[-200:]))
    return how != 'crash'


def cmd_phasepoly(sim, zx, sc, fs, out_p, i):
    folder = sim.pick(['gen', 'gen/deep', 'sub'])
    qs = [sim.between(2, 5) for _ in range(sim.between(1, 2))]
    ps = [sim.between(1, min(2 ** min(qs) - 1, 8)) for _ in range(sim.between(1, 2))]
    m = sim.between(1, 3)
    argv = ['phasepoly', folder, '-q'] + list(map(str, qs)) + ['-m', str(m)] + ['-p'] + list(map(str, ps))
    dests = {}
    for q in qs:
        for p in ps:
            for k in range(m):
                dests['%s/%dqubits/%dgadgets/Original%d.qasm' % (folder, q, p, k)] = (q, p)
    if sim.flag(0.3):
        fs.put(sorted(dests)[0], 'precious contents\n')
    before = files(fs)
    fs.fired, fs.written = [], set()
    how, text, fired, err, e = execute(sim, sc, fs, argv, out_p)

    def correct(d, t):
        q, n = dests[d]
        try:
            with quiet_order():
                c = read_qasm(zx, t)
        except Exception as x:
            sim.fail('incomplete or invalid output', 'phasepoly: %s: %r' % (x, t[:100]))
        # a sum of n distinct parities, each with phase pi/4, and no change of basis states
        if c.qubits != q:
            sim.fail('wrong number of qubits', 'phasepoly: %d for %d' % (c.qubits, q))
        U = unitary(c)
        D = np.diag(U)
        if not np.allclose(np.abs(D), 1, atol=1e-6):
            sim.fail('output denotes a different circuit', 'phasepoly: not diagonal: ' + gen.circ_text(c)[:200])
        ph = np.angle(D / D[0]) / (math.pi / 4)
        k = np.round(ph).astype(int) % 8
        if not np.allclose((ph - k + 4) % 8, 4, atol=1e-4):
            sim.fail('output denotes a different circuit', 'phasepoly: phases %s' % ph)
        # coefficient of a parity y in f(x) = sum_y a_y (x.y): -2/2^q sum_x f(x) (-1)^{x.y}; exact only modulo the period, so count T gates
        if sum(g.tcount() for g in c.gates) != n:
            sim.fail('output denotes a different circuit', 'phasepoly: %d gadgets asked, circuit %s' % (n, gen.circ_text(c)[:200]))
    r = judge(sim, fs, before, how, text, fired, list(dests), 'phasepoly', False, correct)
    if r == 'refused':
        sim.fail('a legal request was refused', '%s: %s %s' % (' '.join(argv), describe(e), err[-200:]))
    return how != 'crash'


def cmd_map(sim, zx, sc, fs, out_p, i):
    """The CNOT mapper of the router: reads a QASM file, writes the routed circuit."""
    import pyzx.scripts.circuit_router as cr
    from pyzx.routing.cnot_mapper import ElimMode
    arch, n = sim.pick([('line', sim.between(2, 5)), ('circle', sim.between(3, 5)), ('fully_connected', sim.between(2, 4)), ('square', 4)])
    with quiet_order():
        a = zx.routing.create_architecture(arch, n_qubits=n)
        allowed = set()
        g = a.graph
        for e in g.edges():
            s, t = g.edge_st(e)
            allowed |= {(a.vertices.index(s), a.vertices.index(t)), (a.vertices.index(t), a.vertices.index(s))}
    c = zx.Circuit(n)
    for _ in range(sim.between(0, 15)):
        gen.add_gate(sim, c, 'CNOT', n, 'c')
    name = 'map%d.qasm' % i
    fs.put(name, to_qasm_plain(c))
    dest = sim.pick(['routed.qasm', 'sub/routed.qasm', 'missing/routed.qasm', name])
    expect_fail = dest.startswith('missing')
    if sim.flag(0.4) and not expect_fail and dest != name:
        fs.put(dest, 'precious contents\n')
    mode = sim.pick([ElimMode.STEINER_MODE, ElimMode.GAUSS_MODE, ElimMode.GENETIC_STEINER_MODE])
    kw = {}
    if mode == ElimMode.GENETIC_STEINER_MODE:
        kw = dict(population=sim.pick([4, 6]), iterations=sim.between(0, 2))
    U = unitary(c)
    before = files(fs)
    fs.fired, fs.written = [], set()
    how, text, fired, err, e = execute(sim, sc, fs, ['map', name, arch, str(mode), dest], out_p,
                                       fn=lambda: cr.map_cnot_circuit(name, a, mode=mode, dest_file=dest, **kw))

    def correct(d, t):
        try:
            with quiet_order():
                r = read_qasm(zx, t)
        except Exception as x:
            sim.fail('incomplete or invalid output', 'map: %s: %r' % (x, t[:100]))
        if mode != ElimMode.GAUSS_MODE and any((h.control, h.target) not in allowed for h in r.gates):
            sim.fail('illegal coupling', gen.circ_text(r)[:200])
        V = unitary(r)
        if same(U, V):
            # the genetic modes may permute
            if mode == ElimMode.GENETIC_STEINER_MODE:
                sim.cover('permuted')
                return
            sim.fail('output denotes a different circuit', 'map %s %s: %s -> %s' % (arch, mode, gen.circ_text(c), gen.circ_text(r)[:200]))
    r = judge(sim, fs, before, how, '', fired, [dest], 'map', expect_fail, correct)
    if r == 'refused':
        sim.fail('a legal request was refused', 'map: %s' % describe(e))
    return how != 'crash'


def to_qasm_plain(c):
    return 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[%d];\n' % c.qubits + ''.join('cx q[%d], q[%d];\n' % (g.control, g.target) for g in c.gates)


def cmd_misuse(sim, zx, sc, fs, out_p, i):
    argv = sim.pick([[], ['frobnicate'], ['opt'], ['tikz'], ['cnots'], ['phasepoly'], ['opt', 'bystander.qasm', '-z'], ['opt', 'sub'], ['router', 'nowhere']])
    before = files(fs)
    fs.fired, fs.written = [], set()
    how, text, fired, err, e = execute(sim, sc, fs, argv, out_p)
    if files(fs) != before:
        sim.fail('another file was damaged', 'misuse: %s' % argv)
    if how == 'ok' and not (text + err).strip():
        sim.fail('failure not reported', 'misuse: %s' % argv)
    return how != 'crash'


COMMANDS = {'opt': cmd_opt, 'tikz': cmd_tikz, 'cnots': cmd_cnots, 'phasepoly': cmd_phasepoly, 'map': cmd_map, 'misuse': cmd_misuse}
