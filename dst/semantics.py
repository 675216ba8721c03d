"""Reference semantics, independent of pyzx.tensor: a diagram is turned into factors over boolean
variables which are summed out one at a time; a circuit is applied gate by gate to a state tensor."""
import cmath
import math
import numpy as np
from .core import Skip, Violation

MAXW = 20
S2 = math.sqrt(0.5)
HAD = np.array([[S2, S2], [S2, -S2]], dtype=complex)


class TooBig(Skip):
    pass


def Malformed(msg):
    return Violation('malformed', msg)


def _num(p, subst=None):
    """phase (in units of pi) -> float"""
    if hasattr(p, 'terms'):      # symbolic polynomial
        tot = 0.0
        for c, t in p.terms:
            x = complex(c)
            for v, k in t.vars:
                x *= (subst or {}).get(v.name, 0.0) ** k
            tot += x
        return tot.real if abs(complex(tot).imag) < 1e-12 else tot
    return float(p)


class Net:
    def __init__(self):
        self.factors = []       # (vars tuple, ndarray)
        self.nv = 0

    def var(self):
        self.nv += 1
        return self.nv - 1

    def add(self, vars, arr):
        # repeated variables in one factor: take the diagonal
        vars = list(vars)
        arr = np.asarray(arr, dtype=complex)
        if len(set(vars)) != len(vars):
            letters = {}
            for v in vars:
                letters.setdefault(v, len(letters))
            arr = np.einsum(arr, [letters[v] for v in vars], list(range(len(letters))))
            vars = list(letters)
        self.factors.append((tuple(vars), arr))

    def contract(self, open_vars):
        """open_vars must be distinct.  Returns ndarray with axes in that order."""
        opens = set(open_vars)
        facs = {}
        byvar = {}
        const = 1.0 + 0j
        nid = 0
        for vs, a in self.factors:
            if not vs:
                const *= complex(a)
                continue
            facs[nid] = (vs, a)
            for v in vs:
                byvar.setdefault(v, set()).add(nid)
            nid += 1
        for v in range(self.nv):
            byvar.setdefault(v, set())
        todo = set(v for v in byvar if v not in opens)
        cost = {}

        def width(v):
            s = set()
            for f in byvar[v]:
                s.update(facs[f][0])
            return len(s)
        for v in todo:
            cost[v] = width(v)
        while todo:
            v = min(todo, key=lambda x: (cost[x], x))
            todo.discard(v)
            fs = sorted(byvar[v])
            if not fs:
                const *= 2
                continue
            if cost[v] > MAXW:
                raise TooBig('width %d' % cost[v])
            vs, arr = self._multiply([facs[f] for f in fs], v)
            touched = set()
            for f in fs:
                for u in facs[f][0]:
                    byvar[u].discard(f)
                    touched.add(u)
                del facs[f]
            if vs:
                facs[nid] = (vs, arr)
                for u in vs:
                    byvar[u].add(nid)
                nid += 1
            else:
                const *= complex(arr)
            for u in touched:
                if u in todo:
                    cost[u] = width(u)
        if len(open_vars) > MAXW:
            raise TooBig('open %d' % len(open_vars))
        ix = {v: i for i, v in enumerate(open_vars)}
        out = np.full((2,) * len(open_vars), const, dtype=complex) if not open_vars else None
        if not open_vars:
            r = const
            for vs, a in facs.values():
                r = r * complex(a)
            return np.array(r)
        res = np.full((1,) * len(open_vars), const, dtype=complex)
        for vs, a in facs.values():
            order = sorted(range(len(vs)), key=lambda k: ix[vs[k]])
            b = a.transpose(order)
            shape = [1] * len(open_vars)
            for k in order:
                shape[ix[vs[k]]] = 2
            res = res * b.reshape(shape)
        return np.broadcast_to(res, (2,) * len(open_vars)).copy()

    @staticmethod
    def _multiply(fs, out_v):
        allv = []
        for vs, _ in fs:
            for u in vs:
                if u not in allv:
                    allv.append(u)
        allv.remove(out_v)
        allv.append(out_v)
        ix = {u: i for i, u in enumerate(allv)}
        res = None
        fs = sorted(fs, key=lambda f: len(f[0]))
        for vs, a in fs:
            order = sorted(range(len(vs)), key=lambda k: ix[vs[k]])
            shape = [1] * len(allv)
            for k in order:
                shape[ix[vs[k]]] = 2
            b = a.transpose(order).reshape(shape)
            res = b if res is None else res * b
        res = np.broadcast_to(res, res.shape[:-1] + (2,)).sum(axis=-1)
        full = tuple(2 for _ in allv[:-1])
        if res.shape != full:
            res = np.broadcast_to(res, full)
        return tuple(allv[:-1]), res


def scalar_value(s, subst=None):
    """Numeric value of a tracked scalar computed from its public fields."""
    if s.is_zero:
        return 0j
    val = cmath.exp(1j * math.pi * _num(s.phase, subst))
    for node in s.phasenodes:
        val *= 1 + cmath.exp(1j * math.pi * _num(node, subst))
    val *= math.sqrt(2) ** s.power2
    val *= complex(s.floatfactor)
    return val


def graph_tensor(g, with_scalar=True, subst=None, order=None):
    """Tensor of a diagram: axes are inputs then outputs."""
    net = Net()
    legs = {}          # vertex -> list of (edge var)
    ins, outs = list(g.inputs()), list(g.outputs())
    bound = ins + outs
    types = {}
    for v in g.vertices():
        types[v] = int(g.type(v))
        legs[v] = []
    zvar = {}
    for v, t in types.items():
        if t in (1, 6):          # Z, Z box: one variable
            zvar[v] = net.var()
        elif t == 2:
            zvar[v] = net.var()
    # each edge has two ends; an end at a Z spider is its variable, at X spider H-transformed
    wio = {}

    def end(v):
        """variable seen by the wire at this end"""
        t = types[v]
        if t in (1, 6):
            return zvar[v]
        if t == 2:
            x = net.var()
            net.add((zvar[v], x), HAD)
            return x
        x = net.var()
        legs[v].append(x)
        return x
    for e in g.edges():
        s, t = g.edge_st(e)
        et = int(g.edge_type(e))
        n = 1
        if et == 3:
            a, b = net.var(), None
            wio.setdefault(s, []).append((t, a))
            wio.setdefault(t, []).append((s, a))
            continue
        for _ in range(n):
            if types[s] == 2 and types[t] == 2 and et == 1:
                # H.H = id: same variable
                net.add((zvar[s], zvar[t]), np.eye(2))
                continue
            if et == 1 and types[s] in (1, 6) and types[t] in (1, 6):
                net.add((zvar[s], zvar[t]), np.eye(2))
                continue
            if et == 2 and {types[s], types[t]} == {1, 2}:
                net.add((zvar[s], zvar[t]), np.eye(2))
                continue
            if et == 1 and (types[s] == 2) != (types[t] == 2) and (types[s] in (1, 6) or types[t] in (1, 6)):
                net.add((zvar[s], zvar[t]), HAD)
                continue
            a, b = end(s), end(t)
            net.add((a, b), HAD if et == 2 else np.eye(2))
    axis = {}
    for v, t in types.items():
        if t == 0:
            if len(legs[v]) != 1:
                raise Malformed('boundary vertex %s has %d wires' % (v, len(legs[v])))
            if v not in bound:
                raise Malformed('boundary vertex %s is neither input nor output' % (v,))
            axis[v] = legs[v][0]
        elif t in (1, 2):
            p = _num(g.phase(v), subst)
            net.add((zvar[v],), [1, cmath.exp(1j * math.pi * p)])
        elif t == 6:
            lab = g.vdata(v, 'label', 1)
            lab = _num(lab, subst) if hasattr(lab, 'terms') else complex(lab)
            net.add((zvar[v],), [1, lab])
        elif t == 3:
            p = _num(g.phase(v), subst)
            k = len(legs[v])
            a = np.ones((2,) * k, dtype=complex)
            a[(1,) * k] = cmath.exp(1j * math.pi * p)
            net.add(legs[v], a)
        elif t == 4:
            # W input: paired with W output through the W_IO edge
            if len(wio.get(v, [])) != 1:
                raise Malformed('W input %s without partner' % v)
            w, x = wio[v][0]
            if len(legs[v]) != 1:
                raise Malformed('W input %s has %d wires' % (v, len(legs[v])))
            net.add((legs[v][0], x), np.eye(2))
        elif t == 5:
            if len(wio.get(v, [])) != 1:
                raise Malformed('W output %s without partner' % v)
            w, x = wio[v][0]
            k = len(legs[v])
            a = np.zeros((2,) * (k + 1), dtype=complex)
            a[(0,) * (k + 1)] = 1
            for i in range(k):
                ix = [0] * (k + 1)
                ix[0] = 1
                ix[1 + i] = 1
                a[tuple(ix)] = 1
            net.add([x] + legs[v], a)
    for v in bound:
        if v not in types:
            raise Malformed('boundary %s is not a vertex' % (v,))
        if v not in axis:
            raise Malformed('input/output %s is not a boundary vertex' % (v,))
    ov = []
    for v in bound:
        x = net.var()
        net.add((axis[v], x), np.eye(2))
        ov.append(x)
    r = net.contract(ov)
    if with_scalar:
        r = r * scalar_value(g.scalar, subst)
    return r


# ---------------------------------------------------------------------------------------
def same(a, b, up_to_scalar=False, tol=1e-6):
    """None if equal, else a short description."""
    if a.shape != b.shape:
        return 'shape %s vs %s' % (a.shape, b.shape)
    na, nb = np.abs(a).max(initial=0), np.abs(b).max(initial=0)
    if not np.isfinite(na) or not np.isfinite(nb):
        return 'non-finite'
    if up_to_scalar:
        za, zb = na < 1e-9, nb < 1e-9
        if za or zb:
            # labels are rounded to 8 decimals by the code under test: a residue that small is still zero
            return None if max(na, nb) < 1e-6 else 'one side is zero (%.3g vs %.3g)' % (na, nb)
        i = np.unravel_index(np.argmax(np.abs(a)), a.shape)
        if abs(b[i]) < 1e-9 * nb:
            return 'not proportional'
        d = np.abs(a / a[i] - b / b[i]).max()
        return None if d < tol * 10 else 'not proportional (%.3g)' % d
    m = max(na, nb)
    if m < 1e-12:
        return None
    d = np.abs(a - b).max() / m
    if d < tol:
        return None
    if same(a, b, True) is None:
        i = np.unravel_index(np.argmax(np.abs(a)), a.shape)
        return 'scalar differs: ratio %s' % np.round(b[i] / a[i], 6) if na > 1e-9 else 'scalar differs'
    return 'different map (%.3g)' % d


# ---- circuits ---------------------------------------------------------------------------
def rz(a):
    return np.array([[1, 0], [0, cmath.exp(1j * math.pi * float(a))]])


def rx(a):
    return HAD @ rz(a) @ HAD


X = np.array([[0, 1], [1, 0]], dtype=complex)
Z = np.diag([1, -1]).astype(complex)


def _apply(U, mat, qs, n):
    """U: tensor of shape (2,)*n + (D,), apply mat on qubits qs."""
    k = len(qs)
    m = mat.reshape((2,) * (2 * k))
    r = np.tensordot(m, U, axes=(list(range(k, 2 * k)), qs))
    return np.moveaxis(r, list(range(k)), qs)


def ctrl(m, n=1):
    d = m.shape[0]
    for _ in range(n):
        M = np.eye(2 * d, dtype=complex)
        M[d:, d:] = m
        m, d = M, 2 * d
    return m


def gate_matrix(g):
    """(matrix, qubits) for the gate kinds our generators and pyzx's outputs use."""
    n = type(g).__name__
    adj = getattr(g, 'adjoint', False)
    if n in ('ZPhase', 'Z', 'S', 'T'):
        return rz(g.phase), [g.target]
    if n in ('XPhase', 'NOT'):
        return rx(g.phase), [g.target]
    if n == 'HAD':
        return HAD, [g.target]
    if n == 'CNOT':
        return ctrl(X), [g.control, g.target]
    if n == 'CZ':
        return ctrl(Z), [g.control, g.target]
    if n == 'XCX':
        hh = np.kron(HAD, HAD)
        return hh @ ctrl(Z) @ hh, [g.control, g.target]
    if n == 'SWAP':
        return np.eye(4)[[0, 2, 1, 3]].astype(complex), [g.control, g.target]
    if n == 'CCZ':
        return ctrl(Z, 2), [g.ctrl1, g.ctrl2, g.target]
    if n == 'Tofolli':
        return ctrl(X, 2), [g.ctrl1, g.ctrl2, g.target]
    if n == 'ParityPhase':
        k = len(g.targets)
        ph = cmath.exp(1j * math.pi * float(g.phase))
        return np.diag([ph if bin(i).count('1') % 2 else 1 for i in range(2 ** k)]), list(g.targets)
    if n == 'CRZ':
        a = float(g.phase)
        return ctrl(np.diag([cmath.exp(-1j * math.pi * a / 2), cmath.exp(1j * math.pi * a / 2)])), [g.control, g.target]
    if n == 'CPhase':
        return ctrl(rz(g.phase)), [g.control, g.target]
    if n == 'CHAD':
        return ctrl(HAD), [g.control, g.target]
    if n == 'CY':
        return ctrl(np.array([[0, -1j], [1j, 0]])), [g.control, g.target]
    if n == 'Y':
        return np.array([[0, -1j], [1j, 0]]), [g.target]
    if n == 'SX':
        return rx(-0.5 if adj else 0.5), [g.target]
    return None


def circuit_unitary(c):
    n = c.qubits
    if n > 10:
        raise TooBig('circuit of %d qubits' % n)
    U = np.eye(2 ** n, dtype=complex).reshape((2,) * n + (2 ** n,))
    gates = list(c.gates)
    for g in gates:
        gm = gate_matrix(g)
        if gm is None:
            for b in g.to_basic_gates():
                m, qs = gate_matrix(b)
                U = _apply(U, m, qs, n)
        else:
            m, qs = gm
            for q in qs:
                if not (0 <= q < n):
                    raise Malformed('gate %s outside %d qubits' % (g, n))
            if len(set(qs)) != len(qs):
                raise Malformed('gate %s repeats a qubit' % g)
            U = _apply(U, m, qs, n)
    return U.reshape(2 ** n, 2 ** n)


def graph_matrix(g, **kw):
    """rows = outputs, columns = inputs (big endian)."""
    t = graph_tensor(g, **kw)
    i, o = len(g.inputs()), len(g.outputs())
    return t.reshape(2 ** i, 2 ** o).T


def perm_matrix(perm):
    """Unitary sending |x_0..x_{n-1}> to y with y[perm[i]] = x[i]."""
    n = len(perm)
    M = np.zeros((2 ** n, 2 ** n))
    for x in range(2 ** n):
        y = 0
        for i in range(n):
            if x >> (n - 1 - i) & 1:
                y |= 1 << (n - 1 - perm[i])
        M[y, x] = 1
    return M
