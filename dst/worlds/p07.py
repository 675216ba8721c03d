"""P07: stabiliser decompositions sum to the diagram's exact value for every random choice."""
import itertools
import numpy as np
from .. import gen
from ..seams import quiet_order
from ..semantics import graph_tensor, scalar_value

ID = 'P07'
QUICK_RUNS = 4000
THOROUGH_RUNS = 150_000
RUN_TIMEOUT = 20
RULE = ('A run draws a Clifford+T state, scalar or open diagram and decomposes it: single replacement steps with adversarial picks, the full '
        'stabiliser decomposition, reduction of sums, post-selection, inner products with random stabiliser states, norm estimates, sampling '
        'of basis states, and the path-sum evaluator; sums are compared with the contracted tensor. Non-trivial: at least one magic state '
        'was replaced or one random state drawn.')
REAL = 'simulate, simplify, scalar, graph backends, rules'


def total(graphs, shape):
    t = np.zeros(shape, dtype=complex)
    for g in graphs:
        t = t + graph_tensor(g)
    return t


def close(a, b, scale=None):
    m = max(np.abs(a).max(initial=0), np.abs(b).max(initial=0), scale or 0)
    return a.shape == b.shape and (m < 1e-12 or np.abs(a - b).max(initial=0) < 1e-6 * m)


def run(sim):
    import pyzx as zx
    from pyzx import simulate as S
    sim.swarm()
    mode = sim.pickw([('steps', 4), ('decomp', 5), ('norm', 3), ('sample', 2), ('path', 2)])
    tmax = sim.pick([3, 6, 8, 9])
    if mode == 'sample':
        return sample(sim, zx, S)
    menu = sim.pick([['CNOT', 'HAD', 'T', 'S'], ['CZ', 'HAD', 'ZPhase'], ['CNOT', 'HAD', 'T', 'CZ', 'ParityPhase', 'NOT', 'S']])
    for _ in range(6):
        c = gen.circuit(sim, 1, sim.pick([2, 3, 4, 6] if mode in ('norm', 'decomp') else [2, 3, 4]), sim.pick([10, 25, 45]), 't', menu)
        if c.to_basic_gates().tcount() <= tmax:
            break
        # drop T gates beyond the budget
        k, keep = 0, []
        for g in c.to_basic_gates().gates:
            if getattr(g, 'phase', None) is not None and g.phase.denominator > 2:
                k += 1
                if k > tmax:
                    continue
            keep.append(g)
        c = zx.Circuit(c.qubits)
        for g in keep:
            c.add_gate(g)
        break
    g = c.to_graph()
    gen.perturb_history(sim, g)
    shape = {'norm': 'state', 'path': 'scalar'}.get(mode) or sim.pick(['scalar', 'scalar', 'state', 'open'])
    if shape != 'open':
        g.apply_state(''.join(sim.pick('0+1-') for _ in range(c.qubits)))
    if shape == 'scalar':
        g.apply_effect(''.join(sim.pick('0+1-') for _ in range(c.qubits)))
    pre = sim.pick(['full_reduce', 'graph_like', 'interior_clifford_simp'])
    if mode == 'path':
        pre = 'full_reduce'
    if pre == 'graph_like':
        zx.simplify.to_gh(g)
        zx.simplify.spider_simp(g, quiet=True)
    else:
        getattr(zx.simplify, pre)(g, quiet=True)
    sim.log('%s %s %s: %s' % (mode, shape, pre, gen.circ_text(c)[:400]))
    sim.log(gen.describe(g, 14))
    sim.cover(mode)
    with quiet_order():
        want = graph_tensor(g)
        before = gen.canon(g)
        scale = float(np.abs(want).max(initial=0))
        tc = zx.simplify.tcount(g)

    def check(graphs, what, expect=None):
        with quiet_order():
            e = want if expect is None else expect
            got = total(graphs, e.shape)
            # cancellation between terms is legitimate: compare relative to the size of the terms
            sz = max([float(np.abs(graph_tensor(h)).max(initial=0)) for h in graphs] or [0])
            if not close(got, e, sz * 1e-3):
                sim.fail('sum differs', '%s: sum of %d terms is off by %.3g (size %.3g)' % (
                    what, len(graphs), float(np.abs(got - e).max(initial=0)), scale), key='sum differs after ' + what)

    if mode == 'steps':
        graphs = [g]
        for _ in range(sim.between(1, 4)):
            with quiet_order():
                cand = [i for i, h in enumerate(graphs) if zx.simplify.tcount(h)]
            if not cand or len(graphs) > 30:
                break
            i = sim.pick(cand)
            pick = sim.pick([True, False, 7])
            s = S.replace_magic_states(graphs[i], pick)
            sim.nontrivial = True
            sim.tick(len(s.graphs))
            sim.cover('terms=%d' % len(s.graphs))
            op = sim.pick(['none', 'reduce_scalar', 'full_reduce', 'partial'])
            if op in ('reduce_scalar', 'full_reduce'):
                getattr(s, op)(quiet=True)
            elif op == 'partial' and s.graphs:
                zx.simplify.full_reduce(s.graphs[sim.choose(len(s.graphs))], quiet=True)
            graphs = graphs[:i] + s.graphs + graphs[i + 1:]
            check(graphs, 'replace_magic_states+' + op)
        with quiet_order():
            if gen.canon(g) != before and len(graphs) != 1:
                sim.fail('argument modified', 'replace_magic_states')
    elif mode == 'decomp':
        ts = S.find_stabilizer_decomp(g)
        sim.nontrivial = tc > 0
        sim.tick(len(ts))
        with quiet_order():
            if any(zx.simplify.tcount(h) for h in ts):
                sim.fail('term is not a stabiliser term', '')
            if len(ts) > S.max_terms_needed(g):
                sim.fail('too many terms', '%d > %d for T-count %d' % (len(ts), S.max_terms_needed(g), tc))
        check(ts, 'find_stabilizer_decomp')
        if shape == 'scalar':
            with quiet_order():
                val = 0
                for h in ts:
                    if h.num_vertices():
                        zx.simplify.full_reduce(h, quiet=True)
                    val += graph_tensor(h).item()
                if not close(np.array([val]), want.reshape(1), scale):
                    sim.fail('scalar value differs', '%s vs %s' % (val, want.item()))
        if tc:
            with quiet_order():
                if gen.canon(g) != before:
                    sim.fail('argument modified', 'find_stabilizer_decomp')
    elif mode == 'path':
        if g.num_vertices() == 0:
            return
        v = S.calculate_path_sum(g)
        sim.nontrivial = True
        with quiet_order():
            if gen.canon(g) != before:
                sim.fail('argument modified', 'calculate_path_sum')
            if not close(np.array([v]), want.reshape(1)):
                sim.fail('path sum differs', '%s vs %s for %s' % (v, want.item(), gen.describe(g)))
    else:
        norm(sim, zx, S, g, want, check, scale)
    sim.log('value %s' % np.round(want.ravel()[:4], 6))


def equatorial(want):
    """inner products with every equatorial stabiliser effect (unit-modulus amplitudes)"""
    q = want.ndim
    pairs = list(itertools.combinations(range(q), 2))
    xs = list(itertools.product([0, 1], repeat=q))
    amp = np.array([want[x] for x in xs])
    base = np.array([[1j ** (sum(p * b for p, b in zip(ph, x)) % 4) for x in xs] for ph in itertools.product(range(4), repeat=q)])
    cz = np.array([[x[a] * x[b] for x in xs] for a, b in pairs]).reshape(len(pairs), len(xs))
    sel = np.array([[k >> i & 1 for i in range(len(pairs))] for k in range(2 ** len(pairs))]).reshape(2 ** len(pairs), len(pairs))
    sg = (-1.0) ** (sel @ cz)
    vals = ((amp * base) @ sg.T).ravel()
    return vals


def norm(sim, zx, S, g, want, check, scale):
    q = want.ndim
    ts = S.find_stabilizer_decomp(g)
    check(ts, 'find_stabilizer_decomp')
    s = S.SumGraph(ts)
    if sim.flag(0.5):
        s.full_reduce(quiet=True)
        check(s.graphs, 'SumGraph.full_reduce')
    if q >= 2 and sim.flag(0.5):
        k = sim.between(1, q - 1)
        qs = sim.shuffled(range(q))[:k]
        eff = {x: sim.pick('01+-') for x in qs}
        p = s.post_select(eff)
        w = want
        for x in sorted(qs, reverse=True):
            e = {'0': [1, 0], '1': [0, 1], '+': [.5 ** .5] * 2, '-': [.5 ** .5, -.5 ** .5]}[eff[x]]
            w = np.tensordot(w, np.array(e), axes=(x, 0))
        sim.log('post_select %s' % eff)
        check(s.graphs, 'post_select (original)')
        check(p.graphs, 'post_select', w)
        s, want, q = p, w, w.ndim
        scale = float(np.abs(w).max(initial=0))
    if s.graphs and sim.flag(0.3):
        f = sim.pick(['to_tensor', 'to_matrix'])
        got = np.asarray(getattr(s, f)())
        sim.cover('SumGraph.' + f)
        with quiet_order():
            if not close(got.ravel(), want.ravel(), scale) or (f == 'to_tensor' and got.shape != want.shape):
                sim.fail('amplitudes differ', 'SumGraph.%s: %s instead of %s' % (f, np.round(got.ravel()[:8], 5), np.round(want.ravel()[:8], 5)),
                         key='amplitudes differ: ' + f)
    if q > 4:
        return
    with quiet_order():
        vals = equatorial(want)
    sim.nontrivial = True
    big = max(scale, 1e-9)
    for _ in range(sim.between(1, 3)):
        v = complex(s.inner_product_with_random_state())
        if np.abs(vals - v).min() > 1e-6 * big * 2 ** q:
            sim.fail('not an inner product with a stabiliser state', '%s is none of %s' % (v, np.round(vals, 5)[:16]))
    check(s.graphs, 'inner_product_with_random_state', want)
    if sim.p_rng == 0 and sim.flag(0.3):
        eps = 0.25
        est = s.estimate_norm(eps)
        p2 = np.abs(vals) ** 2
        n = int(4 * (1 / eps) ** 2)
        tol = 7 * p2.std() / n ** 0.5 + 1e-6 * big
        sim.cover('estimate_norm')
        if s.graphs and abs(est - p2.mean()) > tol:
            sim.fail('norm estimate off', '%s vs %s +- %s' % (est, p2.mean(), tol))


def sample(sim, zx, S):
    """Basis states (dressed with diagonal T gates): the sampler must give exactly that bit string."""
    n = sim.between(1, 4)
    c = zx.Circuit(n)
    bits = [0] * n
    T = 0
    for _ in range(sim.between(0, 12)):
        k = sim.pick(['NOT', 'CNOT', 'T', 'S', 'CZ'])
        q = sim.choose(n)
        if k == 'NOT':
            c.add_gate('NOT', q)
            bits[q] ^= 1
        elif k == 'CNOT' and n > 1:
            t = (q + 1 + sim.choose(n - 1)) % n
            c.add_gate('CNOT', q, t)
            bits[t] ^= bits[q]
        elif k == 'CZ' and n > 1:
            c.add_gate('CZ', q, (q + 1 + sim.choose(n - 1)) % n)
        elif k == 'T' and T < 3:
            c.add_gate('T', q)
            T += 1
        elif k == 'S':
            c.add_gate('S', q)
    g = c.to_graph()
    g.apply_state('0' * n)
    zx.simplify.full_reduce(g, quiet=True)
    s = S.SumGraph(S.find_stabilizer_decomp(g))
    qs = sim.shuffled(range(n))[:sim.between(1, n)]
    rest = [q for q in range(n) if q not in qs]
    post = {q: str(bits[q]) for q in sim.subset(rest)} or None
    with quiet_order():
        want = graph_tensor(g)
    amount = sim.between(1, 3)
    sim.log('sample %s of %s bits %s post %s' % (qs, gen.circ_text(c), bits, post))
    r = s.sample(sorted(qs) if sim.flag(0.5) else qs, post, amount, epsilon=1.0)
    sim.nontrivial = True
    sim.cover('sample')
    if len(r) != amount or any(sorted(q for q, _ in o) != sorted(qs) for o in r):
        sim.fail('wrong samples', 'asked for %d of %s, got %s' % (amount, qs, r))
    if sim.p_rng == 0:
        for o in r:
            for q, v in o:
                if v != bits[q]:
                    sim.fail('impossible outcome sampled', 'qubit %d of basis state %s gave %d (%s)' % (q, bits, v, r))
    with quiet_order():
        if not close(total(s.graphs, want.shape), want, 1e-3):
            sim.fail('sum differs', 'after sample', key='sum differs after sample')
