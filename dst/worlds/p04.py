"""P04: extraction of simplified circuit diagrams gives the original unitary, in every order and with every option."""
import itertools
import numpy as np
from .. import gen
from ..seams import quiet_order
from ..semantics import circuit_unitary, perm_matrix

ID = 'P04'
QUICK_RUNS = 7000
THOROUGH_RUNS = 300_000
RUN_TIMEOUT = 20
RULE = ('A run draws a circuit, turns it into a diagram, simplifies it by a random sequence of extraction-preserving strategies under '
        'the order profile, optionally scrambles layout and vertex numbering, and extracts with a random extractor and options; the '
        'extracted unitary must equal the original up to a global phase (and up to a qubit permutation when asked for). '
        'Non-trivial: the extracted circuit has at least one gate.')
REAL = 'simplify, extract, linalg, circuit, graph backends'


def phase_eq(U, V, tol=1e-6):
    if U.shape != V.shape:
        return False
    t = np.vdot(U, V)
    d = U.shape[0]
    return abs(abs(t) - d) < tol * d


def is_perm(W):
    """W equals a qubit permutation matrix up to a global phase"""
    d = W.shape[0]
    n = d.bit_length() - 1
    A = np.abs(W)
    if not np.allclose(A, np.round(A), atol=1e-5):
        return False
    ph = W[np.argmax(A[:, 0]), 0]
    if abs(ph) < 0.5:
        return False
    img = []
    for q in range(n):
        col = 1 << (n - 1 - q)
        row = int(np.argmax(A[:, col]))
        if bin(row).count('1') != 1:
            return False
        img.append(n - 1 - (row.bit_length() - 1))
    return sorted(img) == list(range(n)) and np.allclose(W, ph * perm_matrix(img), atol=1e-5)


MENUS = [None, ['CNOT', 'HAD', 'T'], ['CZ', 'HAD', 'ZPhase'], ['CNOT', 'CZ', 'SWAP', 'HAD', 'S', 'T'], ['CCZ', 'HAD', 'T', 'CNOT'],
         ['ParityPhase', 'HAD', 'CNOT', 'CZ'], ['TOF', 'CNOT', 'XPhase'], ['XCX', 'CZ', 'CNOT', 'ZPhase', 'XPhase'], ['SWAP', 'CNOT']]
FULLISH = ['full_reduce', 'clifford_simp', 'interior_clifford_simp', 'full_reduce_then_more', 'partial']


def run(sim):
    import pyzx as zx
    sim.swarm()
    kind = sim.pickw([('t', 5), ('c', 3), ('a', 2)])
    menu = sim.pick(MENUS)
    if kind == 'c' and menu:
        menu = [m for m in menu if m not in ('T', 'CCZ', 'TOF')]
    c = gen.circuit(sim, 1, sim.pick([3, 4, 6]), sim.pick([12, 40, 80]), kind, menu)
    with quiet_order():
        U = circuit_unitary(c)
    sim.log('circuit ' + gen.circ_text(c)[:600])
    g = c.to_graph(compress_rows=not sim.flag(0.3), zh=False)
    gen.perturb_history(sim, g)
    how = sim.pickw([('extract', 10), ('simple', 3), ('lookahead', 2), ('normal', 2)])
    if how == 'normal' and kind != 'c':
        how = 'extract'
    s = zx.simplify
    up = sim.flag(0.3)
    if how == 'simple':
        strat = sim.pick(['spider_simp', 'id+spider', 'teleport', 'none'])
        if strat == 'teleport':
            g = s.teleport_reduce(g)
        if strat in ('id+spider',):
            s.id_simp(g, quiet=True)
        if strat != 'none':
            s.spider_simp(g, quiet=True)
        if strat == 'id+spider':
            s.id_simp(g, quiet=True)
        if sim.flag(0.3):
            s.to_gh(g)
        elif sim.flag(0.4):
            # change the colour of some spiders (with Hadamards on their wires) and fuse again
            with quiet_order():
                sel = {v: sim.flag() for v in sorted(g.vertices())}
            s.to_rg(g, select=lambda v: sel[v])
            if sim.flag():
                s.spider_simp(g, quiet=True)
            strat += '+recolour'
    else:
        strat = sim.pickw([('full_reduce', 6), ('clifford_simp', 3), ('interior_clifford_simp', 2), ('graph_like', 1), ('more', 2), ('iter', 2),
                           ('teleport', 1), ('twostage', 1)])
        if strat == 'more':
            s.interior_clifford_simp(g, quiet=True)
            for _ in range(sim.between(1, 4)):
                n = sim.pick(['pivot_gadget_simp', 'gadget_simp', 'pivot_boundary_simp', 'interior_clifford_simp', 'clifford_simp'])
                getattr(s, n)(g, quiet=True)
        elif strat == 'iter':
            stop = sim.between(1, 40)
            s.to_gh(g)
            s.spider_simp(g, quiet=True)
            for h, _ in s.full_reduce_iter(g):
                g = h
                stop -= 1
                if not stop:
                    break
            # extraction is promised for finished reductions only (an interrupted one may leave gadgets on non-Pauli
            # hubs): resume with some strategy that runs to completion
            getattr(s, sim.pick(['full_reduce', 'clifford_simp', 'interior_clifford_simp']))(g, quiet=True)
        elif strat == 'teleport':
            g = s.teleport_reduce(g)
            s.full_reduce(g, quiet=True)
        elif strat == 'graph_like':
            s.to_gh(g)
            s.spider_simp(g, quiet=True)
        elif strat == 'twostage':
            s.clifford_simp(g, quiet=True)
            d = gen.circuit(sim, c.qubits, c.qubits, 12, kind, menu)
            h = d.to_graph()
            if sim.flag():
                s.full_reduce(h, quiet=True)
            g.compose(h)
            with quiet_order():
                U = circuit_unitary(d) @ U
            sim.log('composed with ' + gen.circ_text(d))
            s.full_reduce(g, quiet=True)
        else:
            getattr(s, strat)(g, quiet=True)
    lay = sim.pick(['none', 'normalize', 'random', 'copy', 'adjoint'])
    if lay == 'normalize':
        g.normalize()
    elif lay == 'random' and how != 'normal':
        with quiet_order():
            vs = sorted(g.vertices())
        for v in vs:
            g.set_position(v, sim.choose(5), sim.choose(9))
    elif lay == 'copy':
        g = g.copy() if sim.flag() else g.clone()
    elif lay == 'adjoint':
        g = g.adjoint()
        with quiet_order():
            U = U.conj().T
    sim.log('%s by %s layout=%s up_to_perm=%s' % (how, strat, lay, up))
    sim.cover('simplified:' + strat)
    if how == 'extract':
        oz, oc = sim.flag(0.7), sim.pick([2, 0, 1, 3])
        r = zx.extract_circuit(g, optimize_czs=oz, optimize_cnots=oc, up_to_perm=up, quiet=sim.flag())
        what = 'extract_circuit'
        sim.cover('cnots=%d' % oc)
    elif how == 'simple':
        r = zx.extract_simple(g, up_to_perm=up)
        what = 'extract_simple'
    elif how == 'normal':
        up = False
        r = zx.extract.extract_clifford_normal_form(g)
        what = 'extract_clifford_normal_form'
    else:
        f = sim.pick(['lookahead_fast', 'lookahead_extract', 'lookahead_full'])
        if c.qubits > 4 or len(c.gates) > 40:
            f = 'lookahead_fast'
        r = getattr(zx.extract, f)(g, optimize_for_depth=sim.flag(), up_to_perm=up)
        what = f
    sim.cover(what)
    sim.tick(len(r.gates))
    sim.nontrivial = bool(r.gates)
    sim.log('extracted ' + gen.circ_text(r)[:600])
    with quiet_order():
        if r.qubits != c.qubits:
            sim.fail('qubit count', '%s: %d qubits became %d' % (what, c.qubits, r.qubits))
        V = circuit_unitary(r)
        ok = is_perm(V.conj().T @ U) if up else phase_eq(U, V)
        if not ok:
            sim.fail('different unitary', '%s after %s (up_to_perm=%s)' % (what, strat, up), key='different unitary from ' + what)
        if what == 'extract_clifford_normal_form':
            kinds = [type(x).__name__ for x in r.gates]
            order = {'HAD': 'H', 'ZPhase': 'P', 'CZ': 'C', 'CNOT': 'N', 'S': 'P', 'Z': 'P'}
            seq = ''.join(k for k, _ in itertools.groupby(order.get(k, '?') for k in kinds))
            import re
            if not re.fullmatch('H?P?C?N?H?C?P?H?', seq):
                sim.fail('not in normal form', seq)
