"""P15: separate work in separate threads does not interfere."""
from .. import jobs
from ..seams import quiet_order
from ..simthread import Profile, Sched

ID = 'P15'
QUICK_RUNS = 2400
THOROUGH_RUNS = 80_000
STEP_LIMIT = 400_000_000
RULE = ('A run draws 2-4 jobs (25 kinds: parsing, simplifying, extracting, optimising, evaluating, linear algebra, routing, JSON, TikZ, flow, symbolic '
        'phases ...) with inputs of their own, runs each alone, then all of them in threads of which one runs at a time; the scheduler decides at every '
        'line - or every bytecode of chosen functions - whether to switch: at random, at a few chosen lines, or inside the functions two jobs share. '
        'Non-trivial: at least one switch happened while two jobs were unfinished.')
REAL = 'all of pyzx that the jobs reach; real threads'
STUB = 'the thread scheduler and any locks pyzx creates'
ASSUME = ['Random operations draw from the process-wide generators and are not part of this property.', 'No two threads are given the same object.']


def run(sim):
    import pyzx as zx
    with quiet_order():
        work(sim, zx)


def work(sim, zx):
    n = sim.pickw([(2, 6), (3, 2), (4, 1)])
    size = sim.pick([0.3, 0.6, 1.0])
    todo = []
    first = None
    for i in range(n):
        if first and sim.flag(0.5):
            name, fn = first, jobs.JOBS[first](sim, zx, size)
        else:
            name, fn = jobs.make(sim, zx, size)
            first = first or name
        todo.append((name, fn))
    sim.log('jobs ' + ' '.join(nm for nm, _ in todo))
    alone, funcs, lines = [], [], 0
    for nm, fn in todo:
        p = Profile()
        alone.append(p.run(fn))
        funcs.append(p.funcs)
        lines += p.lines
    for r in alone:
        if r[0] == 'budget':
            raise r[1]
    mode = sim.pickw([('few', 3), ('shared', 4), ('dense', 2), ('fine', 3)])
    points, hot, p_hot, p_line, op = (), frozenset(), 0.0, 0.0, False
    if mode == 'few':
        points = sorted({1 + sim.choose(max(1, lines)) for _ in range(sim.between(1, 8))})
    elif mode in ('shared', 'fine'):
        common = {}
        for i in range(n):
            for c in funcs[i]:
                if any(c in funcs[j] for j in range(n) if j != i):
                    common[c] = common.get(c, 0) + funcs[i][c]
        names = sorted(common, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
        if names:
            k = sim.pick([1, 1, 3, 8])
            hot = frozenset(sim.pick(names) for _ in range(k))
            calls = sum(common[c] for c in hot)
            p_hot = sim.pick([0.5, 0.1]) if calls < 200 else sim.pick([0.1, 0.01])
            op = mode == 'fine'
        p_line = sim.pick([0.0, 0.0, 0.001])
    else:
        p_line = sim.pick([0.3, 0.05, 0.005])
    if lines > 60000 and p_line > 0.01:
        p_line = 0.01
    sim.log('mode %s lines %d hot %s' % (mode, lines, sorted(c.co_qualname for c in hot)))
    sim.cover('mode:' + mode)
    s = Sched(sim, [fn for _, fn in todo], points, hot, p_hot, p_line, op)
    res = s.run()
    sim.tick(s.line)
    sim.cover('switches', s.switches)
    if s.switches:
        sim.nontrivial = True
        sim.count_fault('preemption')
    for i, (nm, _) in enumerate(todo):
        sim.cover('job:' + nm)
        if res[i] != alone[i]:
            a, b = alone[i], res[i]
            where = ', '.join('%s x%d' % kv for kv in sorted(s.where.items())[:8])
            if b is None:
                sim.fail('a thread did not finish', nm)
            if b[0] == 'exception':
                sim.fail('an operation failed in a thread', '%s: %s (alone: %s); switched in %s' % (nm, b[1:], str(a)[:80], where), key='thread exception %s' % b[1])
            k = next((k for k in range(min(len(str(a)), len(str(b)))) if str(a)[k] != str(b)[k]), 0)
            sim.fail('a thread got another result', '%s: ...%s instead of ...%s; switched in %s' % (nm, str(b)[max(0, k - 20):k + 60], str(a)[max(0, k - 20):k + 60], where))
