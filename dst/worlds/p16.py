"""P16: same input and seed, same output: whatever the process did before, whatever the string-hash seed."""
import io
import random
import sys
import warnings

from .. import core, jobs, seams, zygote
from ..seams import quiet_order
from ..simthread import outcome

ID = 'P16'
QUICK_RUNS = 4500
THOROUGH_RUNS = 120_000
RUN_TIMEOUT = 120
RULE = ('A run draws one job (24 deterministic kinds, or one of 8 kinds that draw random numbers, with both generators seeded), runs it in a fresh process, '
        'then in the simulated one after a drawn history: other jobs, failing ones, the same job, modifications of the objects earlier jobs '
        'returned, reseeded or advanced generators, with the order of every set that depends on hashes of strings or addresses chosen by the '
        'simulator; and in processes with other PYTHONHASHSEEDs.  All results must be identical and deterministic jobs must leave the generators '
        'alone. Non-trivial: the history did something, the hash order was changed or another process was asked.')
REAL = 'all of pyzx that the jobs reach; real processes with other hash seeds'
STUB = 'set iteration order where it depends on string hashes or addresses; the process-wide random generators (Python and numpy generators behind a seam)'
ASSUME = ['Objects given to the caller are modified only in the history, never while an operation uses them.',
          'local search and genetic routing: results are compared for equal seeds of both generators.']


def setup():
    zygote.start('p16')


def draw(sim, zx):
    """The job, as a function of the first choices of the run only."""
    size = sim.pick([0.3, 0.6, 1.0])
    seeded = sim.flag(0.35)
    name, fn = jobs.make_seeded(sim, zx, size) if seeded else jobs.make(sim, zx, size)
    return name, fn, seeded, sim.choose(1 << 20)


def perform(fn, seeded, seed):
    import numpy as np
    if seeded:
        random.seed(seed)
        np.random.seed(seed)
    return outcome(fn)


def remote(req):
    """In a process with another hash seed."""
    import pyzx as zx
    seed, trace, tier = req
    sim = core.Sim(ID, seed, trace, tier)
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        seams.begin(sim)
        with quiet_order():
            _, fn, seeded, s = draw(sim, zx)
            return perform(fn, seeded, s)
    finally:
        seams.end(sim)
        sys.stdout, sys.stderr = old


def state():
    import numpy as np
    k = np.random.get_state()
    return random.getstate(), (k[0], k[1].tobytes()) + tuple(k[2:])


def run(sim):
    import numpy as np
    import pyzx as zx
    warnings.simplefilter('ignore')
    with quiet_order():
        name, fn, seeded, seed = draw(sim, zx)
        sim.log('job %s%s' % (name, ' seeded' if seeded else ''))
        sim.cover('job:' + name)
        st, alone = core.forked(lambda: perform(fn, seeded, seed), 60)
        if st != 'ok':
            raise core.Skip('the job did not finish alone')
        sim.log(str(alone)[:200])
        plan = []
        for _ in range(sim.pickw([(0, 1), (1, 3), (3, 3), (6, 1)])):
            plan.append(sim.pickw([('other', 5), ('kind', 4), ('same', 2), ('seeded', 2), ('noise', 2), ('vandalise', 4)]))
        done = []
        for what in plan:
            jobs.KEPT = []
            if what == 'other':
                n, f = jobs.make(sim, zx, sim.pick([0.3, 1.0]))
            elif what == 'kind':
                n, f = name, (jobs.SEEDED[name] if seeded else jobs.JOBS[name])(sim, zx, sim.pick([0.3, 1.0]))
            elif what == 'seeded':
                n, f = jobs.make_seeded(sim, zx, 0.3)
            elif what == 'noise':
                random.seed(sim.choose(1 << 20))
                np.random.seed(sim.choose(1 << 20))
                for _ in range(sim.choose(5)):
                    random.random()
                    np.random.rand()
                done.append(what)
                sim.count_fault('generators reseeded')
                continue
            else:
                n, f = name, fn
            r = outcome(f)
            if r[0] == 'budget':
                raise r[1]
            if what in ('vandalise', 'kind') and (what == 'vandalise' or sim.flag(0.3)):
                for x in jobs.KEPT:
                    try:
                        jobs.vandalise(sim, x)
                    except Exception:
                        pass
                sim.count_fault('returned object modified')
            done.append('%s %s' % (what, n))
            sim.tick()
        jobs.KEPT = None
        sim.log('history: ' + '; '.join(done))
    # hash orders
    hashed = sim.flag(0.7)
    before = state()
    if hashed:
        sim.hash_only = True
        sim.p_order = sim.pick([1.0, 0.3])
        sim.p_graph = 0.0
        dev = sim.deviations
        got = perform(fn, seeded, seed)
        sim.hash_only = False
        sim.p_order = 0.0
        if sim.deviations > dev:
            sim.count_fault('hash order changed')
            sim.nontrivial = True
    else:
        with quiet_order():
            got = perform(fn, seeded, seed)
    after = state()
    if got[0] == 'budget':
        raise got[1]
    if not seeded and name not in jobs.DRAWS and before != after:
        which = 'random' if before[0] != after[0] else 'numpy.random'
        sim.fail('deterministic operation used the random generator', '%s advanced or reseeded %s' % (name, which), key='%s consumed by %s' % (which, name))
    differ(sim, name, alone, got, 'after history [%s]%s' % ('; '.join(done), ' under another hash order' if hashed else ''))
    if done:
        sim.nontrivial = True
        sim.cover('histories')
    if sim.flag(0.35):
        hs = sim.pick(zygote.HASH_SEEDS)
        req = (sim.seed, None, sim.tier) if not sim.replaying else (None, {'inp': sim.inp}, sim.tier)
        other = zygote.ask(hs, req)
        sim.count_fault('other process and hash seed')
        sim.nontrivial = True
        differ(sim, name, alone, other, 'in a fresh process with PYTHONHASHSEED=%d' % hs)


def differ(sim, name, a, b, where):
    if a == b:
        return
    x, y = str(a), str(b)
    k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), 0)
    sim.fail('result not reproducible', '%s %s: ...%s instead of ...%s' % (name, where, y[max(0, k - 30):k + 80], x[max(0, k - 30):k + 80]), key='not reproducible: ' + name)
