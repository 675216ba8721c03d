"""A simulated multiprocessing pool: worker processes are contexts with their own pickled copies and their own
random generators; the scheduler decides which worker takes the next chunk and in what order chunks finish."""
import multiprocessing
import multiprocessing.pool
import pickle
import sys
from . import seams

_ORIG = {}
CPUS = [4]


def cpu_count():
    sim = seams._sim
    return getattr(sim, 'cpus', CPUS[0]) if sim is not None else CPUS[0]


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.n = processes or cpu_count()
        self.sim = seams._sim
        # fork: every worker starts from the parent's generator state at this moment
        self.rngs = [seams.fork_rng() for _ in range(self.n)]
        self.closed = False
        if self.sim is not None:
            self.sim.cover('pool of %d' % self.n)
            self.sim.live_pools = getattr(self.sim, 'live_pools', 0) + 1
        if initializer:
            for w in range(self.n):
                self._in_worker(w, lambda _: initializer(*initargs), None)

    def _in_worker(self, w, f, x):
        parent = seams.current_rng()
        seams.use_rng(self.rngs[w])
        try:
            return f(x)
        finally:
            self.rngs[w] = seams.current_rng()
            seams.use_rng(parent)

    def _run(self, func, items, chunksize, star):
        if self.closed:
            raise ValueError('Pool not running')
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += 1 if extra else 0
        chunksize = max(1, chunksize)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        results = [None] * len(chunks)
        finished = []
        waiting = list(range(len(chunks)))
        busy = {}
        sim = self.sim

        def work(i):
            f, xs = pickle.loads(pickle.dumps((func, chunks[i])))
            out = []
            for x in xs:
                out.append(f(*x) if star else f(x))
            return pickle.loads(pickle.dumps(out))
        while waiting or busy:
            idle = [w for w in range(self.n) if w not in busy]
            if waiting and idle and (not busy or not sim or sim.deviate('thread', 2, 0.3) == 0):
                w = idle[sim.deviate('thread', len(idle), 0.6)] if sim else idle[0]
                i = waiting.pop(0)
                try:
                    busy[w] = (i, True, self._in_worker(w, work, i))
                except Exception as e:
                    busy[w] = (i, False, e)
                if sim:
                    sim.log('worker %d takes chunk %d' % (w, i))
                continue
            ws = sorted(busy)
            w = ws[sim.deviate('thread', len(ws), 0.6)] if sim else ws[0]
            i, ok, val = busy.pop(w)
            if sim:
                sim.tick()
                sim.log('chunk %d finishes' % i)
            if not ok:
                raise val
            results[i] = val
            finished.append(i)
        return results, finished

    def map(self, func, iterable, chunksize=None):
        r, _ = self._run(func, iterable, chunksize, False)
        return [x for c in r for x in c]

    def starmap(self, func, iterable, chunksize=None):
        r, _ = self._run(func, iterable, chunksize, True)
        return [x for c in r for x in c]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        r, fin = self._run(func, iterable, chunksize, False)
        return iter([x for i in fin for x in r[i]])

    def apply(self, func, args=(), kwds={}):
        r, _ = self._run(func, [args], 1, True)
        return r[0][0]

    class _Res:
        def __init__(self, v):
            self.v = v

        def get(self, timeout=None):
            return self.v

        def wait(self, timeout=None):
            pass

        def ready(self):
            return True

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        v = self.apply(func, args)
        if callback:
            callback(v)
        return self._Res(v)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        v = self.map(func, iterable, chunksize)
        if callback:
            callback(v)
        return self._Res(v)
    starmap_async = map_async

    def close(self):
        if not self.closed and self.sim is not None:
            self.sim.live_pools -= 1
        self.closed = True
    terminate = close

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def install():
    """Replace the pool and the processor count wherever pyzx (or multiprocessing itself) names them."""
    import os
    orig = {id(multiprocessing.pool.Pool): SimPool, id(multiprocessing.cpu_count): cpu_count, id(os.cpu_count): cpu_count}
    byname = {'Pool': SimPool, 'cpu_count': cpu_count}
    for name, mod in list(sys.modules.items()):
        if not name.startswith('pyzx') or mod is None:
            continue
        for k, v in list(mod.__dict__.items()):
            if id(v) in orig or (k in byname and getattr(v, '__module__', '').startswith('multiprocessing')):
                mod.__dict__[k] = orig.get(id(v)) or byname[k]
    multiprocessing.pool.Pool = SimPool
    multiprocessing.Pool = SimPool
    multiprocessing.cpu_count = cpu_count
