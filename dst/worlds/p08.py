"""P08: routing implements the requested map, only through coupled pairs, for every random and scheduling decision."""
from fractions import Fraction
from .. import gen, simpool
from ..seams import quiet_order

ID = 'P08'
QUICK_RUNS = 4000
THOROUGH_RUNS = 120_000
RUN_TIMEOUT = 40
STEP_LIMIT = 120_000_000
RULE = ('A run draws a connected architecture (named, random coupling matrix or random tree), a random invertible parity map, a sequence of '
        'maps or a phase polynomial, and routes it with every elimination mode, method and heuristic, with adversarial draws in the genetic '
        'and swarm searches, whose worker pool is simulated: the scheduler picks which worker takes and finishes which chunk. The result is '
        'compared by bit-matrix and parity bookkeeping written for this check. Non-trivial: the routed circuit has a two-qubit gate.')
REAL = 'routing.*, linalg, circuit, graph backends'
STUB = 'multiprocessing.Pool and cpu_count (simulated workers with pickled copies and their own random state)'


def setup():
    simpool.install()


# ---- reference bookkeeping ------------------------------------------------------------------
def rand_map(sim, n):
    m = [1 << i for i in range(n)]
    for _ in range(sim.pick([2, 6, 16, 40]) if n > 1 else 0):
        a = sim.choose(n)
        b = (a + 1 + sim.choose(n - 1)) % n
        m[b] ^= m[a]
        if sim.flag(0.1):
            m[a], m[b] = m[b], m[a]
    return m


def rows(m, n):
    return [[r >> c & 1 for c in range(n)] for r in m]


def play(c, n, sim, what, start=None, phases=None):
    """Parities carried by each wire (as integers) after the circuit's CNOT and phase gates."""
    cur = list(start) if start is not None else [1 << i for i in range(n)]
    for g in c.gates:
        if g.name in ('CNOT', 'CX'):
            if not (0 <= g.control < n and 0 <= g.target < n and g.control != g.target):
                sim.fail('bad gate', '%s: %s' % (what, g))
            cur[g.target] ^= cur[g.control]
        elif phases is not None and hasattr(g, 'phase') and g.name in ('ZPhase', 'Z', 'S', 'T'):
            phases[cur[g.target]] = phases.get(cur[g.target], 0) + Fraction(g.phase)
        else:
            sim.fail('bad gate', '%s: %s' % (what, g))
    return cur


def tidy(ph):
    return {k: v % 2 for k, v in ph.items() if v % 2}


def architecture(sim, R, nmax=8):
    """Returns (architecture, set of coupled qubit pairs)."""
    import numpy as np
    sim.custom_placement = False
    kind = sim.pickw([('line', 1), ('circle', 1), ('square', 1), ('full', 1), ('matrix', 4), ('graph', 2), ('density', 1), ('named', 1)])
    n = sim.between(2, nmax)
    kw = {}
    if kind in ('matrix', 'graph'):
        # random connected graph: a random tree plus extra edges
        es = set()
        lab = sim.shuffled(range(n))
        for i in range(1, n):
            a, b = lab[i], lab[sim.choose(i)]
            es.add((min(a, b), max(a, b)))
        for a in range(n):
            for b in range(a + 1, n):
                if sim.flag(0.15):
                    es.add((a, b))
        if sim.flag(0.2):
            kw['qubit_map'] = sim.shuffled(range(n))
            sim.custom_placement = True
        if kind == 'matrix':
            m = np.zeros((n, n))
            for a, b in es:
                m[a, b] = m[b, a] = 1
                if sim.flag(0.1):
                    m[b, a] = 0
            arch = R.Architecture('custom', coupling_matrix=m, **kw)
        else:
            from pyzx.graph.graph import Graph
            g = Graph()
            vs = list(g.add_vertices(n))
            g.add_edges([(vs[a], vs[b]) if sim.flag(0.5) else (vs[b], vs[a]) for a, b in sorted(es)])
            arch = R.Architecture('custom', coupling_graph=g, **kw)
        coup = {frozenset((arch.vertex2qubit(a), arch.vertex2qubit(b))) for a, b in es}
    else:
        if kind == 'named':
            name = sim.pick(['ibm_qx2', 'ibm_qx4', 'rigetti_8q_agave', 'recursive_architecture'] +
                            (['ibm_qx3', 'ibm_qx5', 'rigetti_16q_aspen'] if nmax >= 8 and sim.flag(0.15) else []))
            arch = R.create_architecture(name)
        elif kind == 'square':
            n = sim.pick([4, 9] if nmax >= 8 else [4])
            arch = R.create_architecture('square', n_qubits=n)
        elif kind == 'density':
            arch = R.create_architecture('dynamic_density', n_qubits=n, density_prob=sim.pick([0.1, 0.3, 0.6]))
        else:
            arch = R.create_architecture({'line': 'line', 'circle': 'circle', 'full': 'fully_connected'}[kind], n_qubits=n)
        n = arch.n_qubits
        with quiet_order():
            coup = set()
            for e in arch.graph.edges():
                a, b = arch.graph.edge_st(e)
                coup.add(frozenset((arch.vertex2qubit(a), arch.vertex2qubit(b))))
            w = {'line': n - 1, 'circle': n if n > 2 else n - 1, 'full': n * (n - 1) // 2}.get(kind)
            if w is not None and len(coup) != w:
                sim.fail('wrong couplings', '%s %d: %s' % (kind, n, sorted(map(sorted, coup))))
    if sorted(arch.qubit2vertex(q) for q in range(n)) != sorted(range(n)) or any(arch.vertex2qubit(arch.qubit2vertex(q)) != q for q in range(n)):
        sim.fail('placement is not a bijection', str([arch.qubit2vertex(q) for q in range(n)]))
    sim.log('arch %s n=%d %s coupled %s' % (kind, n, kw, sorted(sorted(map(int, p)) for p in coup)[:40]))
    sim.cover(kind)
    return arch, coup, n


def check_coupled(sim, c, coup, what):
    for g in c.gates:
        if g.name in ('CNOT', 'CX', 'CZ', 'SWAP') and frozenset((int(g.control), int(g.target))) not in coup:
            sim.fail('uncoupled gate', '%s: %s' % (what, g), key='uncoupled gate in ' + what)


def permuted(m, rp, cp, n):
    """Row r of the result is row rp[r] of m with its columns read through cp."""
    return [sum((m[rp[r]] >> cp[c] & 1) << c for c in range(n)) for r in range(n)]


def as_perm(sim, p, n, what):
    p = [int(x) for x in p]
    if sorted(p) != list(range(n)):
        sim.fail('not a permutation', '%s reports %s' % (what, p))
    return p


def run(sim):
    import pyzx as zx
    from pyzx import routing as R
    sim.swarm()
    sim.keep_vertices = True  # an architecture assumes its coupling graph lists vertices in order of creation
    sim.cpus = sim.pick([1, 2, 4])
    mode = sim.pickw([('gauss', 4), ('permuted', 2), ('sequence', 3), ('phase', 6), ('tracker', 1)])
    sim.cover(mode)
    if mode == 'tracker':
        return tracker(sim, R)
    arch, coup, n = architecture(sim, R, 8 if mode in ('gauss', 'phase') else 6)
    try:
        if mode == 'phase':
            return phase(sim, zx, R, arch, coup, n)
        if mode == 'gauss':
            return single(sim, zx, R, arch, coup, n)
        return search(sim, zx, R, arch, coup, n, mode)
    except ValueError as e:
        # elimination needs labels in post-order of a spanning tree; a placement of the caller's own choosing may be refused
        if not sim.custom_placement:
            raise
        sim.log('refused: %s' % e)


def verdict(sim, c, n, want, what):
    got = play(c, n, sim, what)
    if got != want:
        sim.fail('wrong map', '%s: got %s wanted %s' % (what, rows(got, n), rows(want, n)), key='wrong map from ' + what)
    if hasattr(c, 'matrix') and c.matrix is not None:
        mt = [sum(int(x) << i for i, x in enumerate(r)) for r in c.matrix.data]
        if mt != got:
            sim.fail('tracker matrix differs from its gates', '%s: %s vs %s' % (what, c.matrix.data, rows(got, n)))
    if any(g.name == 'CNOT' for g in c.gates):
        sim.nontrivial = True
    sim.tick(len(c.gates))
    sim.log('%s: %d gates' % (what, len(c.gates)))


def single(sim, zx, R, arch, coup, n):
    from pyzx.linalg import Mat2
    m = rand_map(sim, n)
    mat = Mat2(rows(m, n))
    em = sim.pickw([(R.ElimMode.STEINER_MODE, 5), (R.ElimMode.GAUSS_MODE, 1)])
    how = sim.pick(['gauss', 'gauss', 'rec_steiner_gauss', 'permutation', 'steiner_gauss'])
    if em == R.ElimMode.GAUSS_MODE:
        how = 'gauss'
    c = R.CNOT_tracker(n)
    want = m
    sim.log('%s %s of %s' % (how, em, mat.data))
    if how == 'gauss':
        R.gauss(em, mat, architecture=arch, full_reduce=True, y=c)
    elif how == 'permutation':
        p = sim.shuffled(range(n))
        want = permuted(m, p, p, n)
        R.gauss(em, mat, architecture=arch, permutation=p, full_reduce=True, y=c)
    elif how == 'rec_steiner_gauss':
        R.rec_steiner_gauss(mat, arch, full_reduce=True, y=c)
    else:
        # the older elimination only supports architectures whose labels form a Hamiltonian path
        if not all(frozenset((i, i + 1)) in coup and arch.qubit2vertex(i) == i for i in range(n - 1)) or arch.qubit2vertex(n - 1) != n - 1:
            return
        R.steiner_gauss(mat, arch, full_reduce=True, y=c)
    if mat.data != rows([1 << i for i in range(n)], n):
        sim.fail('matrix not reduced', '%s left %s' % (how, mat.data))
    if em == R.ElimMode.STEINER_MODE:
        check_coupled(sim, c, coup, how)
    verdict(sim, c, n, want, how)


def search(sim, zx, R, arch, coup, n, mode):
    from pyzx.linalg import Mat2
    E = R.ElimMode
    kw = dict(population_size=sim.pick([4, 6]), n_iterations=sim.between(0, 2))
    if mode == 'permuted':
        m = rand_map(sim, n)
        em = sim.pick([E.STEINER_MODE, E.STEINER_MODE, E.GAUSS_MODE])
        row, col = sim.flag(0.7), sim.flag(0.7)
        if sim.flag(0.4):
            kw['fitness_func'] = R.FitnessFunction(sim.pick(list(R.CostMetric)), Mat2(rows(m, n)), em, arch, row=row, col=col)
        mat = Mat2(rows(m, n))
        p, c, _ = R.permuted_gauss(mat, em, architecture=arch, row=row, col=col, **kw)
        if mat.data != rows(m, n):
            sim.fail('argument modified', 'permuted_gauss changed the matrix')
        p = as_perm(sim, p, n, 'permuted_gauss')
        rp, cp = (p if row else list(range(n))), (p if col else list(range(n)))
        if as_perm(sim, c.row_perm, n, 'row_perm') != rp or as_perm(sim, c.col_perm, n, 'col_perm') != cp:
            sim.fail('reported permutations differ', '%s vs %s %s' % (p, c.row_perm, c.col_perm))
        if em == E.STEINER_MODE:
            check_coupled(sim, c, coup, 'permuted_gauss')
        verdict(sim, c, n, permuted(m, rp, cp, n), 'permuted_gauss row=%s col=%s' % (row, col))
        return
    k = sim.between(1, 3)
    ms = [rand_map(sim, n) for _ in range(k)]
    em = sim.pick([E.STEINER_MODE, E.GENETIC_STEINER_MODE, E.GENETIC_STEINER_MODE, E.PSO_STEINER_MODE, E.PSO_STEINER_MODE, E.GENETIC_GAUSS_MODE,
                   E.PSO_GAUSS_MODE, E.GAUSS_MODE])
    ip, op = sim.flag(0.7), sim.flag(0.7)
    if em in (E.STEINER_MODE, E.GAUSS_MODE):
        kw = {}
    elif 'PSO' in em.name:
        kw.update(swarm_size=sim.between(1, 5), n_steps=sim.between(1, 3), s_crossover=sim.pick([0.4, 0.0, 1.0]), p_crossover=sim.pick([0.3, 0.0, 1.0]),
                  pso_mutation=sim.pick([0.2, 0.6, 1.0]))
    mats = [Mat2(rows(m, n)) for m in ms]
    cs, ps, _ = R.sequential_gauss(mats, mode=em, architecture=arch, input_perm=ip, output_perm=op, **kw)
    what = 'sequential_gauss %s' % em
    if len(cs) != k or len(ps) != k + 1:
        sim.fail('wrong number of results', '%d circuits %d permutations for %d maps' % (len(cs), len(ps), k))
    ps = [as_perm(sim, p, n, what) for p in ps]
    if not ip and ps[0] != list(range(n)) or not op and ps[-1] != list(range(n)):
        sim.fail('forbidden permutation', '%s input_perm=%s output_perm=%s reports %s' % (what, ip, op, ps))
    for i in range(k):
        if 'STEINER' in em.name:
            check_coupled(sim, cs[i], coup, what)
        verdict(sim, cs[i], n, permuted(ms[i], ps[i + 1], ps[i], n), what)
    if getattr(sim, 'live_pools', 0):
        sim.fail('worker pool left running', what)


def phase(sim, zx, R, arch, coup, n):
    from pyzx.routing.phase_poly import PhasePoly
    c = zx.Circuit(n)
    for _ in range(sim.pick([4, 12, 30])):
        if sim.flag(0.5):
            a = sim.choose(n)
            c.add_gate('CNOT', a, (a + 1 + sim.choose(n - 1)) % n)
        else:
            k = sim.pick(['T', 'S', 'Z', 'ZPhase'])
            q = sim.choose(n)
            if k == 'ZPhase':
                c.add_gate('ZPhase', q, phase=Fraction(sim.between(-15, 16), 8))
            else:
                c.add_gate(k, q)
    text = gen.circ_text(c)
    sim.log(text[:500])
    ph = {}
    out = play(c, n, sim, 'input', None, ph)
    ph = tidy(ph)
    E, M = R.ElimMode, R.RoutingMethod
    meth = sim.pick([M.MEIJER, M.GRAY, M.GRAY_MEIJER, M.MATROID, 'gray_synth', 'matroid_synth'])
    em = sim.pickw([(E.STEINER_MODE, 4), (E.GAUSS_MODE, 1), (E.GENETIC_STEINER_MODE, 2 if meth == 'matroid_synth' else 0),
                    (E.PSO_STEINER_MODE, 1 if meth == 'matroid_synth' else 0)])
    kw = {}
    if meth in (M.GRAY, M.GRAY_MEIJER):
        kw = dict(root_heuristic=sim.pick(list(R.RootHeuristic)), split_heuristic=sim.pick(list(R.SplitHeuristic)))
    elif meth == M.MEIJER:
        for o in ('zeroes_rec', 'neighbour_path', 'tie_break'):
            if sim.flag(0.3):
                kw[o] = True
    elif meth in (M.MATROID, 'matroid_synth'):
        for o in ('optimize_parity_order', 'optimize_partition_order'):
            if sim.flag(0.4):
                kw[o] = sim.flag(0.5)
    what = str(meth)
    sim.log('%s %s %s' % (meth, em, {k: str(v) for k, v in kw.items()}))
    sim.cover(what)
    pin = pout = list(range(n))
    arg = PhasePoly.fromCircuit(c) if isinstance(meth, str) or sim.flag(0.5) else c
    if isinstance(meth, str):
        if 'GENETIC' in em.name or 'PSO' in em.name:
            kw.update(population_size=4, n_iterations=1)
            if 'PSO' in em.name:
                kw.update(swarm_size=2, n_steps=2)
        r, pin, pout = getattr(arg, meth)(em, arch, **kw)
        pin, pout = as_perm(sim, pin, n, what), as_perm(sim, pout, n, what)
    else:
        r = R.route_phase_poly(arg, arch, method=meth, mode=em, **kw)
    if em != E.GAUSS_MODE:
        check_coupled(sim, r, coup, what)
    got = {}
    # wire q starts with input pin[q] and ends with output pout[q]
    end = play(r, n, sim, what, [1 << pin[q] for q in range(n)], got)
    got = tidy(got)
    if end != [out[pout[q]] for q in range(n)]:
        sim.fail('wrong map', '%s: got %s wanted %s for %s' % (what, rows(end, n), rows(out, n), text), key='wrong map from ' + what)
    if got != ph:
        sim.fail('wrong phases', '%s: got %s wanted %s for %s' % (what, got, ph, text), key='wrong phases from ' + what)
    if gen.circ_text(c) != text:
        sim.fail('argument modified', what)
    if any(g.name == 'CNOT' for g in r.gates):
        sim.nontrivial = True
    sim.tick(len(r.gates))
    sim.log('%d gates' % len(r.gates))
    if sim.flag(0.2):
        # routing again gives an equally correct result (nothing learnt by the architecture object goes stale)
        m = rand_map(sim, n)
        from pyzx.linalg import Mat2
        t = R.CNOT_tracker(n)
        R.gauss(E.STEINER_MODE, Mat2(rows(m, n)), architecture=arch, full_reduce=True, y=t)
        check_coupled(sim, t, coup, 'gauss after ' + what)
        verdict(sim, t, n, m, 'gauss after ' + what)


def tracker(sim, R):
    n = sim.between(2, 5)
    c = R.CNOT_tracker(n)
    m = [1 << i for i in range(n)]
    for _ in range(sim.between(1, 12)):
        a = sim.choose(n)
        b = (a + 1 + sim.choose(n - 1)) % n
        if sim.flag(0.5):
            c.row_add(a, b)
            m[b] ^= m[a]
        else:
            # adding column a to column b: the gate comes first
            c.col_add(a, b)
            m = [r ^ ((r >> a & 1) << b) for r in m]
    verdict(sim, c, n, m, 'CNOT_tracker')
