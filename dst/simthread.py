"""Threads under the simulator: real threads, only one of which ever runs; the scheduler decides at every line (or bytecode) of
pyzx code whether another thread goes on.  Locks pyzx might use are cooperative."""
import re
import sys
import threading
from .seams import PKG

_current = None       # the active Sched


class SimLock:
    """threading.Lock/RLock for code under test: waiting hands the processor to another simulated thread."""
    def __init__(self, reentrant=False):
        self.re = reentrant
        self.owner = None
        self.n = 0

    def _me(self):
        return _current.tid() if _current is not None and _current.tid() is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.re and self.owner == me):
            if not blocking or _current is None or _current.tid() is None:
                return False
            if timeout is not None and timeout >= 0:
                return False
            if not _current.wait(me):
                raise RuntimeError('deadlock: every simulated thread waits for a lock')
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None
    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


_real = threading.Lock, threading.RLock


def install_locks():
    """Locks created by pyzx modules (at import or later) become cooperative."""
    def made_by_pyzx():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(PKG)
    threading.Lock = lambda: SimLock() if made_by_pyzx() else _real[0]()
    threading.RLock = lambda: SimLock(True) if made_by_pyzx() else _real[1]()


class Profile:
    """Lines executed and functions entered by one job run alone."""
    def __init__(self):
        self.lines = 0
        self.funcs = {}

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._glob)
        try:
            return outcome(fn)
        finally:
            sys.settrace(old)

    def _glob(self, frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(PKG):
            return None
        self.funcs[c] = self.funcs.get(c, 0) + 1
        return self._loc

    def _loc(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
        return self._loc


def outcome(fn):
    try:
        return ('value', fn())
    except Exception as e:
        return ('exception', type(e).__name__, re.sub('0x[0-9a-f]+', '0x', str(e))[:200])
    except BaseException as e:
        if type(e).__name__ in ('StepBudget',):
            return ('budget', e)
        raise


class Sched:
    def __init__(self, sim, jobs, points=(), hot=frozenset(), p_hot=0.0, p_line=0.0, opcodes=False):
        self.sim, self.jobs = sim, jobs
        self.points = set(points)
        self.hot, self.p_hot, self.p_line, self.opcodes = hot, p_hot, p_line, opcodes
        self.n = len(jobs)
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.all_done = threading.Semaphore(0)
        self.local = threading.local()
        self.line = 0
        self.switches = 0
        self.where = {}
        self.spin = 0

    def tid(self):
        return getattr(self.local, 'tid', None)

    def run(self):
        global _current
        ths = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        _current = self
        try:
            self.sems[self.sim.choose(self.n)].release()
            self.all_done.acquire()
        finally:
            _current = None
        for t in ths:
            t.join(10)
        for r in self.results:
            if r and r[0] == 'budget':
                raise r[1]
        return self.results

    def _main(self, i):
        self.local.tid = i
        self.sems[i].acquire()
        sys.settrace(self._glob)
        try:
            self.results[i] = outcome(self.jobs[i])
        except BaseException as e:
            self.results[i] = ('exception', type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
            self.done[i] = True
            alive = [j for j in range(self.n) if not self.done[j]]
            if alive:
                self.sems[alive[self.sim.deviate('thread', len(alive), 0.5)]].release()
            else:
                self.all_done.release()

    def _glob(self, frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(PKG):
            return None
        if self.opcodes and c in self.hot:
            frame.f_trace_opcodes = True
        return self._loc

    def _loc(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.line += 1
            c = frame.f_code
            if self.line in self.points:
                p = 1.0
            elif self.p_hot and c in self.hot:
                p = self.p_hot
            else:
                p = self.p_line
            if p:
                self._maybe(c, p)
        return self._loc

    def _maybe(self, code, p):
        me = self.local.tid
        others = [j for j in range(self.n) if j != me and not self.done[j]]
        if not others:
            return
        if p >= 1:
            v = 1 + self.sim.choose(len(others))
        else:
            v = self.sim.deviate('thread', 1 + len(others), p)
        if v:
            self.spin = 0
            self.switches += 1
            self.where[code.co_qualname] = self.where.get(code.co_qualname, 0) + 1
            self._switch(me, others[v - 1])

    def _switch(self, me, to):
        self.sems[to].release()
        self.sems[me].acquire()

    def wait(self, me):
        """The current thread waits for a lock: let another one go on.  False: nobody else can."""
        others = [j for j in range(self.n) if j != me and not self.done[j]]
        self.spin += 1
        if not others or self.spin > 50 * self.n:
            return False
        self._switch(me, others[self.spin % len(others)])
        return True
