"""P05: circuit-to-circuit optimisers preserve the unitary for every random draw and every solver answer."""
import numpy as np
from .. import gen, simfs, topt
from ..core import product_frame
from ..seams import quiet_order
from ..semantics import circuit_unitary, graph_tensor, same
from .p04 import phase_eq

ID = 'P05'
QUICK_RUNS = 7000
THOROUGH_RUNS = 300_000
RULE = ('A run draws a circuit and applies 1-3 optimisers (gate-commutation pass, phase-polynomial pass with the built-in or an external '
        'solver, both, phase teleportation, TODD on one block) under adversarial random draws and set orders; the external solver is a '
        'stand-in whose answers (correct variants, failures, malformed or wrong output) are drawn by the simulator. Non-trivial: the '
        'optimiser changed the gate list.')
REAL = 'optimize, todd, parity_network, simplify.teleport_reduce, circuit, linalg, tempfile'
STUB = 'random/numpy.random streams, set order, the TOpt executable and subprocess'

CT = ['ZPhase', 'HAD', 'CNOT', 'CZ', 'S', 'T', 'NOT', 'Z']
MENUS = [CT, ['CNOT', 'T', 'HAD', 'S'], ['CZ', 'CNOT', 'S', 'HAD'], ['CNOT', 'T'], ['CNOT', 'CZ', 'T', 'S', 'Z', 'NOT'],
         ['CCZ', 'HAD', 'CNOT', 'T'], ['TOF', 'CNOT', 'HAD'], ['CNOT', 'SWAP', 'HAD', 'T', 'NOT'], ['ZPhase', 'HAD', 'NOT', 'CNOT'],
         ['CNOT', 'CZ', 'S']]


def snap(c):
    return c.qubits, c.bits, [(g.name, tuple(sorted((k, str(v)) for k, v in g.__dict__.items() if k != 'index'))) for g in c.gates]


def run(sim):
    import pyzx as zx
    sim.swarm()
    kind = sim.pickw([('t', 6), ('c', 2), ('a', 2)])
    menu = sim.pick(MENUS)
    if kind == 'c':
        menu = [m for m in menu if m not in ('T', 'CCZ', 'TOF')]
    c = gen.circuit(sim, 1, sim.pick([3, 4, 6]), sim.pick([15, 40, 90]), kind, menu)
    if sim.flag(0.4) and len(c.gates) < 60:
        c = c + c if sim.flag() else c + c.adjoint()
    sim.log('circuit ' + gen.circ_text(c)[:900])
    with quiet_order():
        U = circuit_unitary(c)
    cliffT = all(getattr(g, 'phase', None) is None or g.phase.denominator in (1, 2, 4) for g in c.gates)
    solver = topt.Solver(sim, sim.pick([0.0, 0.15]))
    use_solver = sim.flag(0.3)
    with simfs.SimFS(sim, procs=solver) as fs:
        zx.settings.topt_command = ['topt'] if use_solver else None
        try:
            for _ in range(sim.between(1, 3)):
                c = step(sim, zx, c, U, cliffT, solver)
        finally:
            zx.settings.topt_command = None
            left = fs.listing(fs.tmp)
        if left:
            sim.fail('temporary files left behind', str(left))


def step(sim, zx, c, U, cliffT, solver):
    o = zx.optimize
    menu = [('basic', 4), ('teleport', 2)]
    if cliffT:
        menu += [('full', 3), ('block', 3), ('block_raw', 2)]
    what = sim.pickw(menu)
    arg = c.to_basic_gates()
    t0 = arg.tcount()
    if what == 'full' and sim.flag():
        arg = c
    before = snap(arg)
    sim.log('%s tcount=%d gates=%d' % (what, t0, len(c.gates)))
    sim.cover(what)
    nbad = len(solver.bad)
    solver.inflated = False
    r = None
    try:
        if what == 'basic':
            sw = sim.flag(0.7)
            r = o.basic_optimization(arg, do_swaps=sw, quiet=True)
            if not sw:
                pairs = {frozenset((g.control, g.target)) for g in arg.gates if g.name in ('CNOT', 'CZ')}
                new = {frozenset((g.control, g.target)) for g in r.gates if g.name in ('CNOT', 'CZ', 'SWAP')}
                if not new <= pairs:
                    sim.fail('connectivity not preserved', 'do_swaps=False placed a gate on %s' % (sorted(map(sorted, new - pairs)),))
        elif what == 'full':
            r = o.full_optimize(arg)
        elif what == 'block':
            r = o.phase_block_optimize(arg, quiet=True)
        elif what == 'block_raw':
            # without pre-optimisation the method takes the gate set it documents: no NOT or X-phases
            if any(g.name not in ('CNOT', 'CZ', 'HAD') and not isinstance(g, zx.gates.ZPhase) for g in arg.gates):
                return c
            r = o.phase_block_optimize(arg, pre_optimize=False, quiet=True)
        else:
            g = arg.to_graph(compress_rows=sim.flag())
            with quiet_order():
                lay = layout(gen.canon(g))
                want = graph_tensor(g)
            h = zx.teleport_reduce(g, quiet=True)
            with quiet_order():
                if layout(gen.canon(h)) != lay:
                    sim.fail('layout changed', 'teleport_reduce moved more than phases')
                if layout(gen.canon(g)) != lay or same(want, graph_tensor(g)):
                    sim.fail('argument modified', 'teleport_reduce')
                d = same(want, graph_tensor(h), True)
                if d:
                    sim.fail('different unitary', 'teleport_reduce: ' + d, key='different unitary from teleport')
            r = zx.Circuit.from_graph(h)
            r = r.split_phase_gates() if sim.flag() else r.to_basic_gates()
    except Exception as e:
        if len(solver.bad) == nbad:
            raise
        sim.log('reported %s after solver fault %s' % (type(e).__name__, solver.bad[-1]))
        sim.cover('solver-error-reported')
        with quiet_order():
            if snap(arg) != before:
                sim.fail('argument modified', 'failed %s' % what)
        return c
    if len(solver.bad) > nbad and any(b in ('missing', 'exit', 'binary', 'empty') for b in solver.bad[nbad:]):
        if any(b in ('missing', 'exit', 'binary') for b in solver.bad[nbad:]):
            sim.fail('solver failure not reported', str(solver.bad))
    sim.tick(len(r.gates))
    with quiet_order():
        if snap(arg) != before:
            sim.fail('argument modified', '%s changed the circuit it was given' % what)
        if r.qubits != c.qubits:
            sim.fail('qubit count', what)
        V = circuit_unitary(r)
        if not phase_eq(U, V):
            sim.fail('different unitary', '%s: %s' % (what, gen.circ_text(r)[:800]), key='different unitary from ' + what)
        t1 = r.to_basic_gates().tcount()
        if t1 > t0 and not solver.inflated:
            sim.fail('T-count increased', '%s: %d -> %d' % (what, t0, t1), key='T-count increased by ' + what)
        if [str(g) for g in r.gates] != [str(g) for g in arg.gates]:
            sim.nontrivial = True
    sim.log('-> ' + gen.circ_text(r)[:500])
    return r


def layout(cn):
    """everything but the phases, independent of vertex names (positions in a circuit diagram are unique)"""
    vs, es, i, o = cn
    pos = {v: (t[2], t[3], t[0]) for v, t in vs.items()}
    return (sorted(pos.values()), sorted((tuple(sorted((pos[a], pos[b]))), et) for (a, b), et in es),
            [pos[v] for v in i], [pos[v] for v in o])
