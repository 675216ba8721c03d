"""P24: a circuit is what its edit history says it is."""
import cmath
import copy
import math
import pickle
from fractions import Fraction

import numpy as np

from .. import gen
from ..seams import quiet_order
from ..semantics import HAD, X, Z, _apply, ctrl, graph_matrix, rx, rz, same

ID = 'P24'
QUICK_RUNS = 7000
THOROUGH_RUNS = 350_000
RULE = ('A run is a history of 4-25 operations over a pool of up to 4 circuits (some with classical bits, some parity trackers): gates of every kind '
        'appended and prepended as objects or by name, circuits appended whole or through a mask, added, tensored, copied, pickled, inverted, expanded into '
        'basic gates, split into phase gates, converted to a diagram and back, printed in a text format and read back, with refused operations (wrong sizes, masks, '
        'names, arguments) in between. After each, every circuit of the pool must be exactly what a unitary model of its own history says, '
        'with its qubits, bits and measurements, and its statistics must be those of its gates. Non-trivial: an operation on a circuit with gates succeeded.')
REAL = 'circuit (Circuit, gates, graphparser, qasm, qc and quipper printers and parsers), routing.parity_maps.CNOT_tracker, graph backends'
STUB = 'none'
ASSUME = 'FSim is only composed and copied, not interpreted; numeric phases'
MAXQ = 5

Y = np.array([[0, -1j], [1j, 0]])
SWAP = np.eye(4)[[0, 2, 1, 3]].astype(complex)


def say(sim, *a):
    sim.log(' '.join(map(str, a)))


def e(x):
    return cmath.exp(1j * math.pi * float(x))


def u3(t, p, l):
    c, s = math.cos(math.pi * float(t) / 2), math.sin(math.pi * float(t) / 2)
    return np.array([[c, -e(l) * s], [e(p) * s, e(p + l) * c]])


def ry(a):
    return u3(a, 0, 0)


def srx(a):
    return u3(a, -0.5, 0.5)


def srz(a):
    return np.diag([e(-a / 2), e(a / 2)])


def rxx(a):
    hh = np.kron(HAD, HAD)
    return hh @ rzz(a) @ hh


def rzz(a):
    return np.diag([1, e(a), e(a), 1])


# class name -> (names for add_gate, wires, number of phases, constructor order, matrix)
W1, W2 = ('target',), ('control', 'target')
GATES = {
    'ZPhase': (['ZPhase'], W1, 1, lambda p: rz(p)),
    'Z': (['Z'], W1, 0, lambda: Z),
    'S': (['S'], W1, 'a', lambda a: rz(-0.5 if a else 0.5)),
    'T': (['T'], W1, 'a', lambda a: rz(-0.25 if a else 0.25)),
    'XPhase': (['XPhase'], W1, 1, lambda p: rx(p)),
    'NOT': (['NOT'], W1, 0, lambda: X),
    'SX': (['SX'], W1, 'a', lambda a: rx(-0.5 if a else 0.5)),
    'YPhase': (['YPhase'], W1, 1, lambda p: ry(p)),
    'Y': (['Y'], W1, 0, lambda: Y),
    'HAD': (['HAD', 'H'], W1, 0, lambda: HAD),
    'CNOT': (['CNOT'], W2, 0, lambda: ctrl(X)),
    'CZ': (['CZ'], W2, 0, lambda: ctrl(Z)),
    'XCX': (['XCX'], W2, 0, lambda: np.kron(HAD, HAD) @ ctrl(Z) @ np.kron(HAD, HAD)),
    'SWAP': (['SWAP'], W2, 0, lambda: SWAP),
    'CY': (['CY'], W2, 0, lambda: ctrl(Y)),
    'CSX': (['CSX'], W2, 0, lambda: ctrl(rx(0.5))),
    'CHAD': ([], W2, 0, lambda: ctrl(HAD)),
    'CRX': (['CRX'], W2, 1, lambda p: ctrl(srx(p))),
    'CRY': (['CRY'], W2, 1, lambda p: ctrl(ry(p))),
    'CRZ': (['CRZ'], W2, 1, lambda p: ctrl(srz(p))),
    'CPhase': (['CPhase', 'CP'], W2, 1, lambda p: ctrl(rz(p))),
    'RXX': (['RXX'], W2, 1, lambda p: rxx(p)),
    'RZZ': (['RZZ'], W2, 1, lambda p: rzz(p)),
    'U2': (['U2'], W1, 2, lambda p, l: u3(0.5, p, l)),
    'U3': (['U3', 'U'], W1, 3, lambda t, p, l: u3(t, p, l)),
    'CU3': (['CU3'], W2, 3, lambda t, p, l: ctrl(u3(t, p, l))),
    'CU': (['CU'], W2, 4, lambda t, p, l, g: ctrl(e(g) * u3(t, p, l))),
    'CCZ': (['CCZ'], ('ctrl1', 'ctrl2', 'target'), 0, lambda: ctrl(Z, 2)),
    'Tofolli': (['TOF'], ('ctrl1', 'ctrl2', 'target'), 0, lambda: ctrl(X, 2)),
    'CSWAP': (['CSWAP'], ('ctrl1', 'ctrl2', 'target'), 0, lambda: ctrl(SWAP)),
}
BASIC = ('ZPhase', 'Z', 'S', 'T', 'XPhase', 'NOT', 'SX', 'HAD', 'CNOT', 'CZ')


def parity(p, k):
    return np.diag([e(p) if bin(i).count('1') % 2 else 1 for i in range(2 ** k)])


def spec_item(name, wires, params):
    if name == 'ParityPhase':
        return ('u', parity(params[0], len(wires)), tuple(wires))
    return ('u', np.asarray(GATES[name][3](*params), dtype=complex), tuple(wires))


PARAMS = {'U2': ('theta', 'phi'), 'U3': ('theta', 'phi', 'rho'), 'CU3': ('theta', 'phi', 'rho'), 'CU': ('theta', 'phi', 'rho', 'gamma')}


def read(g):
    """What a gate object says it is."""
    n = type(g).__name__
    if n == 'Measurement':
        return ('m', g.target, g.result_bit)
    if n == 'DiscardBit':
        return ('d', g.target)
    if n == 'FSim':
        return ('f', g.control, g.target, g.phi)
    if n == 'ParityPhase':
        return spec_item(n, g.targets, (g.phase,))
    names, wires, k, mat = GATES[n]
    ws = tuple(getattr(g, w) for w in wires)
    if n == 'RZZ' and tuple(g.targets) != ws:
        return ('u', rzz(g.phase), tuple(g.targets))
    if n in PARAMS:
        return spec_item(n, ws, [getattr(g, a) for a in PARAMS[n]])
    if k == 1:
        return spec_item(n, ws, (g.phase,))
    if n in ('Z', 'S', 'T'):
        return ('u', rz(g.phase), ws)
    if n in ('NOT', 'SX'):
        return ('u', rx(g.phase), ws)
    if n == 'CSX':
        return ('u', ctrl(rx(-0.5 if getattr(g, 'adjoint', False) else 0.5)), ws)
    return spec_item(n, ws, ())


class Model:
    def __init__(self, n, bits, items=()):
        self.n, self.bits, self.items = n, bits, list(items)
        self.tracker = False

    def pure(self):
        return not self.bits and all(i[0] == 'u' for i in self.items)

    def copy(self):
        m = Model(self.n, self.bits, self.items)
        return m

    def collapse(self):
        if len(self.items) > 40:
            self.items = [i if i[0] != 'U' else ('u', i[1], tuple(range(self.n))) for i in segments(self.items, self.n)]

    def move(self, mask, bmask):
        return [move(i, mask, bmask) for i in self.items]


def move(i, mask, bmask):
    if i[0] == 'u':
        return ('u', i[1], tuple(mask[q] for q in i[2]))
    if i[0] == 'm':
        return ('m', mask[i[1]], i[2] if i[2] is None else bmask[i[2]])
    if i[0] == 'd':
        return ('d', bmask[i[1]])
    return ('f', mask[i[1]], mask[i[2]], i[3])


def segments(items, n):
    out, U = [], None

    def flush():
        nonlocal U
        if U is not None:
            out.append(('U', U.reshape(2 ** n, 2 ** n)))
            U = None
    for i in items:
        if i[0] == 'u':
            if U is None:
                U = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
            U = _apply(U, i[1], list(i[2]), n)
        else:
            flush()
            out.append(i)
    flush()
    return out


def unitary(items, n):
    s = segments(items, n)
    return s[0][1] if s else np.eye(2 ** n)


def inverse(m):
    return [('u', i[1].conj().T, i[2]) for i in reversed(m.items)]


def text(c):
    return 'on %d qubits %d bits: %s' % (c.qubits, c.bits, [(type(g).__name__, {k: str(v) for k, v in vars(g).items()}) for g in c.gates])


def check(sim, c, m, what):
    if c.qubits != m.n or c.bits != m.bits:
        sim.fail('wrong size', '%s: %d qubits %d bits, should be %d and %d' % (what, c.qubits, c.bits, m.n, m.bits))
    its = []
    for g in c.gates:
        i = read(g)
        qs = i[2] if i[0] == 'u' else ()
        if any(not 0 <= q < m.n for q in qs) or len(set(qs)) != len(qs):
            sim.fail('malformed', '%s: gate %s %s' % (what, g, vars(g)))
        its.append(i)
    a = [i for i in segments(its, m.n)]
    b = [i for i in segments(m.items, m.n)]
    # identity stretches do not count
    a = [i for i in a if i[0] != 'U' or same(i[1], np.eye(2 ** m.n), True)]
    b = [i for i in b if i[0] != 'U' or same(i[1], np.eye(2 ** m.n), True)]
    if [i[0] for i in a] != [i[0] for i in b]:
        sim.fail('wrong circuit', '%s: %s\nmodel has %s' % (what, text(c), [i[0] for i in b]))
    for x, y in zip(a, b):
        if x[0] == 'U':
            r = same(x[1], y[1], True)
            if r:
                sim.fail('wrong circuit', '%s: %s\n%s' % (what, text(c), r))
        elif tuple(x) != tuple(y):
            sim.fail('wrong circuit', '%s: %s, should be %s\n%s' % (what, x, y, text(c)))
    if m.tracker:
        want = [[int(i == j) for j in range(m.n)] for i in range(m.n)]
        for g in c.gates:
            want[g.target] = [x ^ y for x, y in zip(want[g.target], want[g.control])]
        if [[int(x) for x in r] for r in c.matrix.data] != want:
            sim.fail('tracked matrix', '%s: tracked %s, gates give %s' % (what, c.matrix.data, want))


def phase(sim):
    return sim.pickw([(lambda: Fraction(sim.choose(8), 4), 4), (lambda: Fraction(sim.between(-8, 16), 4), 2),
                      (lambda: Fraction(sim.between(-20, 40), sim.pick([3, 5, 7, 8, 16])), 2), (lambda: Fraction(0), 1)])()


def make_gate(sim, zx, n, kinds=None):
    """(class name, wires, params, gate class)"""
    from pyzx.circuit import gates as G
    ok = [k for k, v in GATES.items() if len(v[1]) <= n and (kinds is None or k in kinds)]
    name = 'ParityPhase' if kinds is None and sim.flag(0.04) else sim.pick(ok)
    if name == 'ParityPhase':
        ws = sim.shuffled(range(n))[:sim.between(1, n)]
        p = phase(sim)
        return name, ws, [p], G.ParityPhase, [p] + ws
    names, wires, k, mat = GATES[name]
    ws = sim.shuffled(range(n))[:len(wires)]
    ps = [sim.flag()] if k == 'a' else [phase(sim) for _ in range(k)]
    return name, ws, ps, getattr(G, name), ws + ps


def edit(sim, zx, c, m, kinds=None):
    """append or prepend one gate"""
    name, ws, ps, cls, args = make_gate(sim, zx, m.n, kinds)
    front = sim.flag(0.35)
    f = c.prepend_gate if front else c.add_gate
    names = GATES[name][0] if name != 'ParityPhase' else ['ParityPhase']
    if names and sim.flag():
        nm = sim.pick(names)
        say(sim, '%s(%s %s)' % (f.__name__, nm, args))
        if ps and name not in ('ParityPhase', 'U2', 'U3', 'CU3', 'CU') and sim.flag(0.3):
            f(nm, *ws, **{'adjoint' if GATES[name][2] == 'a' else 'phase': ps[0]})
        else:
            f(nm, *args)
    else:
        g = cls(*args)
        say(sim, '%s(%s object %s)' % (f.__name__, name, args))
        if not front and sim.flag(0.2):
            c += g
        else:
            f(g)
    it = spec_item(name, ws, ps)
    m.items = [it] + m.items if front else m.items + [it]


def measure(sim, c, m):
    from pyzx.circuit import gates as G
    if sim.flag(0.2):
        b = sim.choose(m.bits)
        c.add_gate('DiscardBit', b)
        m.items.append(('d', b))
    else:
        q, b = sim.choose(m.n), sim.choose(m.bits)
        if sim.flag(0.15):
            b = None
        if sim.flag():
            c.add_gate('Measurement', q, b)
        else:
            c.add_gate(G.Measurement(q, result_bit=b))
        m.items.append(('m', q, b))
    say(sim, 'measure', m.items[-1])


def fresh(sim, zx, pool):
    n = sim.pickw([(1, 2), (2, 4), (3, 4), (4, 1)])
    bits = sim.pickw([(0, 4), (1, 1), (2, 1)])
    c = zx.Circuit(n, bit_amount=bits) if bits else zx.Circuit(n, name='c%d' % len(pool))
    m = Model(n, bits)
    say(sim, 'new circuit', n, bits)
    for _ in range(sim.between(0, 6)):
        if bits and sim.flag(0.3):
            measure(sim, c, m)
        else:
            edit(sim, zx, c, m)
    return c, m


def tracker(sim, zx):
    from pyzx.routing.parity_maps import CNOT_tracker
    n = sim.between(2, 4)
    c = CNOT_tracker(n)
    m = Model(n, 0)
    m.tracker = True
    say(sim, 'new tracker', n)
    return c, m


def refused(sim, zx, pool):
    """an operation that must be refused and change nothing"""
    c, m = sim.pick(pool)
    o, mo = sim.pick(pool)
    k = sim.choose(7)
    if k == 0:
        if (m.n, m.bits) == (mo.n, mo.bits):
            return
        f, exc, what = (lambda: c.add_circuit(o)), TypeError, 'add_circuit of another size'
    elif k == 1:
        if (m.n, m.bits) == (mo.n, mo.bits):
            return

        def f():
            d = c
            d += o
        exc, what = TypeError, '+= of another size'
    elif k == 2:
        f, exc, what = (lambda: c.add_circuit(o, mask=list(range(mo.n + 1)))), TypeError, 'mask too long'
    elif k == 3:
        f, exc, what = (lambda: c.add_circuit(o, mask=list(range(mo.n))[1:])), TypeError, 'mask too short'
    elif k == 4:
        f, exc, what = (lambda: c.add_circuit(o, mask=list(range(mo.n)), bit_mask=list(range(mo.bits + 1)))), TypeError, 'bit mask too long'
    elif k == 5:
        g = sim.pick(['FOO', 'cnot', ''])
        f, exc, what = (lambda: sim.pick([c.add_gate, c.prepend_gate])(g, 0)), KeyError, 'unknown gate %r' % g
    else:
        f, exc, what = (lambda: sim.pick([c.add_gate, c.prepend_gate])('CNOT', 0)), TypeError, 'missing argument'
    sim.count_fault('refused operation')
    say(sim, 'refused: ' + what)
    try:
        f()
    except exc:
        return
    except Exception as x:
        if k in (5, 6):
            return
        sim.fail('wrong error', '%s: %s %s' % (what, type(x).__name__, x))
    sim.fail('accepted', what)


def stats(sim, zx, c, m):
    names = [type(g).__name__ for g in c.gates]
    k = sim.choose(3)
    if k == 0:
        d = c.stats_dict(depth=m.pure() and sim.flag())
        want = dict(qubits=m.n, gates=len(names), cnot=names.count('CNOT'), had=names.count('HAD'), measurement=names.count('Measurement'))
        if not set(names) - set(BASIC):
            ph = [g.phase for g in c.gates if hasattr(g, 'phase')]
            cl = sum(p.denominator <= 2 for p in ph)
            want.update(tcount=len(ph) - cl, twoqubit=names.count('CNOT') + names.count('CZ'), clifford=len(names) - len(ph) + cl, other=0)
            if d['depth']:
                want['depth'] = depth(c, m.n)
        bad = {x: (d[x], y) for x, y in want.items() if d[x] != y}
        if bad:
            sim.fail('wrong statistics', '(got, should be) %s for %s' % (bad, text(c)))
        s = c.stats()
        if '%d qubits with %d gates' % (m.n, len(names)) not in s:
            sim.fail('wrong statistics', s)
    elif k == 1:
        if set(names) - set(BASIC):
            return
        if c.tcount() != sum(g.phase.denominator > 2 for g in c.gates if hasattr(g, 'phase')) or c.twoqubitcount() != names.count('CNOT') + names.count('CZ'):
            sim.fail('wrong statistics', 'tcount %s twoqubitcount %s for %s' % (c.tcount(), c.twoqubitcount(), text(c)))
        if c.depth() != depth(c, m.n):
            sim.fail('wrong statistics', 'depth %s for %s' % (c.depth(), text(c)))
    else:
        if len(c) != len(names) or [type(g).__name__ for g in c] != names:
            sim.fail('wrong statistics', 'len or iteration')
        str(c), repr(c)


def depth(c, n):
    d = [0] * n
    for g in c.gates:
        qs = [getattr(g, a) for a in ('control', 'target') if hasattr(g, a)]
        x = 1 + max(d[q] for q in qs)
        for q in qs:
            d[q] = x
    return max(d)


def reprint(sim, zx, c, m):
    """print and read back; None when the format does not have these gates"""
    C = zx.Circuit
    fmt = sim.pick(['qasm2', 'qasm3', 'qc', 'quipper', 'emoji'])
    say(sim, 'print as ' + fmt)
    if fmt == 'emoji':
        try:
            c.to_emoji()
        except Exception:
            pass
        return None
    try:
        s = {'qasm2': lambda: c.to_qasm(), 'qasm3': lambda: c.to_qasm(3), 'qc': lambda: c.to_qc(), 'quipper': lambda: c.to_quipper()}[fmt]()
    except TypeError as x:
        if "doesn't have" in str(x):
            return None
        raise
    if m.bits:
        return None
    sim.cover(fmt)
    try:
        d = {'q': C.from_qasm}.get(fmt[0] if 'qasm' in fmt else '', C.from_qc if fmt == 'qc' else C.from_quipper)(s)
    except Exception as x:
        sim.fail('own text refused', '%s %s for\n%s\n%s' % (type(x).__name__, x, s, text(c)), key='%s refused' % fmt)
    if d.qubits != m.n:
        sim.fail('wrong size', '%s text of %d qubits read as %d\n%s' % (fmt, m.n, d.qubits, s), key='size ' + fmt)
    return fmt, s, d


def step(sim, zx, pool):
    idx = sim.choose(len(pool))
    c, m = pool[idx]
    if m.tracker:
        return track(sim, zx, pool, idx)
    op = sim.pickw([('gate', 6), ('gates', 1), ('append', 4), ('plus', 2), ('tensor', 2), ('copy', 2), ('adjoint', 2), ('basic', 2), ('split', 2), ('graph', 2),
                    ('reprint', 4), ('refused', 3), ('stats', 2), ('new', 1), ('rowadd', 1), ('gateop', 2), ('equal', 1), ('fsim', 1)])
    o, mo = sim.pick(pool)
    if m.items:
        sim.nontrivial = True
    new = None
    if op == 'gate':
        if m.bits and sim.flag(0.3):
            measure(sim, c, m)
        else:
            edit(sim, zx, c, m)
    elif op == 'gates':
        ks = [sim.pick(['S', 'T', 'H', 'HAD', 'Z', 'NOT', 'SX', 'Y']) for _ in range(sim.between(1, 4))]
        q = sim.choose(m.n)
        say(sim, 'add_gates', ks, q)
        c.add_gates(' '.join(ks), q)
        for k in ks:
            nm = {'H': 'HAD'}.get(k, k)
            m.items.append(spec_item(nm, [q], [False] if GATES[nm][2] == 'a' else []))
    elif op == 'append':
        if (mo.n, mo.bits) == (m.n, m.bits) and sim.flag():
            say(sim, 'add_circuit', pool.index((o, mo)), 'to', idx)
            if sim.flag():
                c.add_circuit(o)
            else:
                d = c
                d += o
                if d is not c:
                    sim.fail('wrong circuit', '+= made a new object')
            m.items = m.items + list(mo.items)
        elif mo.n <= m.n and mo.bits <= m.bits:
            mask = sim.shuffled(range(m.n))[:mo.n]
            bm = sim.shuffled(range(m.bits))[:mo.bits]
            kw = dict(mask=mask, bit_mask=bm)
            if mo.bits == m.bits and sim.flag():
                bm = list(range(m.bits))
                del kw['bit_mask']
            if mo.n == m.n and 'bit_mask' in kw and sim.flag(0.3):
                mask = list(range(m.n))
                del kw['mask']
            say(sim, 'add_circuit', pool.index((o, mo)), 'to', idx, kw)
            c.add_circuit(o, **kw)
            m.items = m.items + mo.move(mask, bm)
    elif op == 'plus':
        if (mo.n, mo.bits) == (m.n, m.bits):
            say(sim, 'add', idx, pool.index((o, mo)))
            new = c + o, Model(m.n, m.bits, m.items + mo.items)
    elif op == 'tensor':
        if m.n + mo.n <= MAXQ:
            say(sim, 'tensor', idx, pool.index((o, mo)))
            new = (c @ o if sim.flag() else c.tensor(o)), Model(m.n + mo.n, m.bits + mo.bits,
                                                               m.items + mo.move(range(m.n, m.n + mo.n), range(m.bits, m.bits + mo.bits)))
    elif op == 'copy':
        k = sim.choose(4)
        say(sim, 'copy', idx, k)
        new = [c.copy, lambda: copy.deepcopy(c), lambda: pickle.loads(pickle.dumps(c)), lambda: c + zx.Circuit(m.n, bit_amount=m.bits)][k](), m.copy()
    elif op == 'adjoint':
        if m.pure():
            say(sim, 'adjoint', idx)
            new = c.adjoint(), Model(m.n, 0, inverse(m))
    elif op == 'basic':
        say(sim, 'to_basic_gates', idx)
        d = c.to_basic_gates()
        bad = {type(g).__name__ for g in d.gates} - set(BASIC) - {'Measurement', 'DiscardBit', 'FSim'}
        if bad:
            sim.fail('not basic', '%s in %s' % (bad, text(d)))
        new = d, m.copy()
    elif op == 'split':
        say(sim, 'split_phase_gates', idx)
        new = c.split_phase_gates(), m.copy()
    elif op == 'graph':
        if m.pure():
            kw = dict(compress_rows=sim.flag(), backend=sim.pick([None, 'simple', 'multigraph']))
            zh = sim.flag(0.3)
            say(sim, 'to_graph', idx, zh, kw)
            g = c.to_graph(zh=zh, **kw)
            with quiet_order():
                r = same(graph_matrix(g), unitary(m.items, m.n), True)
                if r or len(g.inputs()) != m.n or len(g.outputs()) != m.n:
                    sim.fail('wrong diagram', '%s %s\n%s' % (kw, text(c), r))
            if not zh:
                new = zx.Circuit.from_graph(g, split_phases=sim.flag()), m.copy()
    elif op == 'reprint':
        r = reprint(sim, zx, c, m)
        if r is not None and not any(i[0] == 'f' for i in m.items):
            fmt, s, d = r
            with quiet_order():
                if [i for i in m.items if i[0] != 'u']:
                    sim.fail('wrong circuit', 'measurements printed\n' + s)
                x = same(unitary([read(g) for g in d.gates], m.n), unitary(m.items, m.n), True)
                if x:
                    sim.fail('text means something else', '%s\n%s\n%s\n%s' % (x, s, text(c), text(d)), key='text ' + fmt)
            new = d, m.copy()
    elif op == 'refused':
        refused(sim, zx, pool)
    elif op == 'stats':
        stats(sim, zx, c, m)
    elif op == 'new':
        new = tracker(sim, zx) if sim.flag(0.3) else fresh(sim, zx, pool)
    elif op == 'rowadd':
        if m.n > 1:
            a, b = sim.shuffled(range(m.n))[:2]
            say(sim, 'row/col add', a, b)
            if sim.flag():
                c.row_add(a, b)
                m.items.append(spec_item('CNOT', [a, b], []))
            else:
                c.col_add(a, b)
                m.items.insert(0, spec_item('CNOT', [b, a], []))
    elif op == 'gateop':
        # gates combined into circuits
        n1, w1, p1, cls1, a1 = make_gate(sim, zx, sim.pick([2, 3]))
        n2, w2, p2, cls2, a2 = make_gate(sim, zx, sim.pick([2, 3]))
        g1, g2 = cls1(*a1), cls2(*a2)
        s1, s2 = max(w1) + 1, max(w2) + 1
        k = sim.choose(4)
        if k == 0 and s1 + s2 > MAXQ:
            k = 1
        say(sim, 'gate operators', k, n1, a1, n2, a2)
        if k == 0:
            new = g1 @ g2, Model(s1 + s2, 0, [spec_item(n1, w1, p1), spec_item(n2, [w + s1 for w in w2], p2)])
        elif k == 1:
            new = g1 + g2, Model(max(s1, s2), 0, [spec_item(n1, w1, p1), spec_item(n2, w2, p2)])
        elif k == 2 and m.n + s1 <= MAXQ:
            new = c @ g1, Model(m.n + s1, m.bits, m.items + [spec_item(n1, [w + m.n for w in w1], p1)])
        else:
            new = c + g1, Model(max(m.n, s1), m.bits, m.items + [spec_item(n1, w1, p1)])
    elif op == 'equal':
        equal(sim, zx, c)
    elif op == 'fsim':
        if m.n > 1 and sim.flag(0.3):
            a, b = sim.shuffled(range(m.n))[:2]
            p = phase(sim)
            say(sim, 'FSim', a, b, p)
            c.add_gate('FSim', a, b, Fraction(1, 2), p)
            m.items.append(('f', a, b, p))
    if new is not None:
        sim.cover(op)
        check(sim, new[0], new[1], op)
        put(sim, pool, new)


def put(sim, pool, new):
    if len(pool) < 4:
        pool.append(new)
    else:
        pool[sim.choose(len(pool))] = new


def equal(sim, zx, c):
    """gates that compare equal are the same gate"""
    gs = list(c.gates)
    for a in gs[:8]:
        b = a.copy()
        if not a == b:
            sim.fail('gate comparison', '%s %s is not equal to its copy' % (a, vars(a)), key='copy differs ' + type(a).__name__)
        for b in gs[:8]:
            if a == b:
                x, y = read(a), read(b)
                if x[0] == 'u' and y[0] == 'u':
                    n = c.qubits
                    if same(unitary([x], n), unitary([y], n), True):
                        sim.fail('gate comparison', '%s %s == %s %s' % (a, vars(a), b, vars(b)), key='equal gates differ ' + type(a).__name__)
                elif x != y:
                    sim.fail('gate comparison', '%s == %s' % (x, y))


def track(sim, zx, pool, idx):
    from pyzx.routing.parity_maps import CNOT_tracker
    c, m = pool[idx]
    sim.nontrivial = True
    a, b = sim.shuffled(range(m.n))[:2]
    k = sim.choose(9)
    say(sim, 'tracker', k, a, b)
    G = zx.circuit.gates
    if k == 0:
        c.row_add(a, b)
    elif k == 1:
        c.col_add(a, b)
        m.items.insert(0, spec_item('CNOT', [b, a], []))
        return
    elif k == 2:
        c.add_gate(G.CNOT(a, b))
    elif k == 3:
        c.add_gate('CNOT', a, b)
    elif k == 4:
        c.prepend_gate(*sim.pick([('CNOT', a, b), (G.CNOT(a, b),)]))
        m.items.insert(0, spec_item('CNOT', [a, b], []))
        return
    elif k == 5:
        d = CNOT_tracker.from_circuit(c)
        n = m.copy()
        n.tracker = True
        put(sim, pool, (d, n))
        return
    elif k == 6:
        o = [x for x in pool if x[1].tracker and x[1].n <= m.n]
        o, mo = sim.pick(o)
        mask = list(range(m.n))
        its = list(mo.items)
        if mo.n == m.n and sim.flag():
            c.add_circuit(o)
        else:
            mask = sim.shuffled(mask)[:mo.n]
            c.add_circuit(o, mask=mask)
        m.items = m.items + [move(i, mask, None) for i in its]
        return
    elif k == 7:
        put(sim, pool, (c.copy(), m.copy()) if sim.flag() else (c.adjoint(), Model(m.n, 0, inverse(m))))
        return
    else:
        r = reprint(sim, zx, c, m)
        if r:
            put(sim, pool, (r[2], m.copy()))
        return
    m.items.append(spec_item('CNOT', [a, b], []))


def run(sim):
    import pyzx as zx
    sim.swarm()
    pool = [fresh(sim, zx, [])]
    if sim.flag(0.3):
        pool.append(tracker(sim, zx))
    for _ in range(sim.between(4, 25)):
        step(sim, zx, pool)
        with quiet_order():
            for i, (c, m) in enumerate(pool):
                m.collapse()
                check(sim, c, m, 'circuit %d of the pool' % i)
        sim.tick()
