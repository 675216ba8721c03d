"""The simulator's decision source, run isolation, campaign driver, minimiser and replay.

A run is a pure function of (world, trace).  A trace has one dense stream ``inp`` (choices that build
the workload) and several sparse streams (``order``, ``fault``, ``rng``, ``thread``): in a sparse stream
value 0 at a decision point means "what the shipped program would do / no fault", anything else is a
deviation made by the simulator.  Fresh runs draw the trace from a PRNG seeded by (property, seed);
replays read it from a file.
"""
import gc
import hashlib
import io
import json
import os
import pickle
import re
import random as _random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYZX_REPO', '/repo')
PKG = os.path.join(REPO, 'pyzx') + os.sep

SPARSE = ('order', 'fault', 'rng', 'thread')
Random = _random.Random


class Violation(Exception):
    """A property does not hold in this run.  ``kind`` names the failure class (stable under
    minimisation), ``key`` is what a known-findings entry must match."""
    def __init__(self, kind, msg='', key=None):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.key = key or kind


class Skip(Exception):
    """The generated case is outside the evaluator's bounds; the run says nothing."""


class HarnessError(Exception):
    pass


class StepBudget(BaseException):
    """Raised inside a run by the deterministic step counter."""


class Sim:
    LOGMAX = 4000

    def __init__(self, prop, seed=None, trace=None, tier='quick'):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.replaying = trace is not None
        self.inp = list(trace['inp']) if trace else []
        self.ipos = 0
        self.sparse = {s: {} for s in SPARSE}
        if trace:
            for s in SPARSE:
                self.sparse[s] = {int(k): v for k, v in trace.get(s, {}).items()}
        self.spos = {s: 0 for s in SPARSE}
        if not self.replaying:
            self._rng = {s: Random('%s/%s/%s' % (prop, seed, s)) for s in SPARSE + ('inp',)}
        self.p_order = 0.0          # how often an order decision deviates
        self.hash_only = False      # deviate only where the order depends on string hashes or addresses
        self.p_rng = 0.0
        self.events = []
        self.h = hashlib.blake2b(digest_size=12)
        self.faults = {}
        self.cov = {}
        self.steps = 0
        self.simtime = 0.0
        self.nontrivial = False
        self.deviations = 0
        self.final = None

    # ---- dense stream -----------------------------------------------------------------
    def choose(self, n):
        """0 <= result < n; 0 is the simplest choice."""
        if n <= 1:
            return 0
        if self.replaying:
            if self.ipos < len(self.inp):
                v = self.inp[self.ipos]
                if not (0 <= v < n):
                    v = v % n
            else:
                v = 0
        else:
            v = self._rng['inp'].randrange(n)
            self.inp.append(v)
        self.ipos += 1
        return v

    def between(self, a, b):
        return a + self.choose(b - a + 1)

    def flag(self, p=0.5):
        """True with probability p; False is the simple choice."""
        return self.choose(1000) >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def pickw(self, pairs):
        """pairs: [(item, weight)...], first is the simplest."""
        tot = sum(w for _, w in pairs)
        v = self.choose(tot)
        for it, w in pairs:
            if v < w:
                return it
            v -= w
        return pairs[-1][0]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.flag(p)]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.choose(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # ---- sparse streams ---------------------------------------------------------------
    def deviate(self, stream, n, p):
        """0 (natural) or, with probability p, one of 1..n-1."""
        pos = self.spos[stream]
        self.spos[stream] = pos + 1
        if self.replaying:
            v = self.sparse[stream].get(pos, 0)
            if v >= n:
                v = v % n
        else:
            v = 0
            if n > 1 and p > 0:
                r = self._rng[stream]
                if p >= 1 or r.random() < p:
                    v = r.randrange(1, n) if p < 1 else r.randrange(n)
                    if v:
                        self.sparse[stream][pos] = v
        if v:
            self.deviations += 1
            self.h.update(b'%c%d:%d' % (stream.encode()[0], pos & 0xffffff, v))
        return v

    def order(self, n):
        return self.deviate('order', n, self.p_order)

    def fault(self, kind, p, n=2):
        """Returns 0 (no fault) or a fault variant; counts only faults that fire."""
        v = self.deviate('fault', n, p)
        if v:
            self.faults[kind] = self.faults.get(kind, 0) + 1
            self.log('FAULT %s/%d' % (kind, v))
        return v

    def count_fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    # ---- bookkeeping -------------------------------------------------------------------
    def log(self, s):
        s = str(s)
        self.h.update(s.encode('utf-8', 'replace'))
        if len(self.events) < self.LOGMAX:
            self.events.append(s)

    def cover(self, tag, k=1):
        self.cov[tag] = self.cov.get(tag, 0) + k

    def tick(self, k=1):
        self.steps += k

    def fail(self, kind, msg='', key=None):
        raise Violation(kind, msg, key)

    def trace(self):
        t = {'inp': self.inp[:self.ipos] if self.replaying else list(self.inp)}
        for s in SPARSE:
            t[s] = {str(k): v for k, v in sorted(self.sparse[s].items())}
        return t

    def swarm(self):
        """Pick the run's fault/order profile (swarm testing)."""
        self.p_order = self.pick([0.0, 0.02, 0.15, 0.5, 1.0])
        self.p_graph = self.pick([0.0, 0.0, 0.2, 1.0])
        self.p_rng = self.pick([0.0, 0.0, 0.02, 0.2])
        self.rng_seed = self.choose(1 << 30)
        from . import seams
        seams.install_rng(self.rng_seed)
        self.log('swarm order=%s graph=%s rng=%s' % (self.p_order, self.p_graph, self.p_rng))


# ---------------------------------------------------------------------------------------
def product_frame(tb):
    """Innermost frame that belongs to the code under test, or None."""
    hit = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(PKG):
            hit = (os.path.relpath(fn, REPO), tb.tb_frame.f_code.co_name, tb.tb_lineno)
        tb = tb.tb_next
    return hit


def describe_exc(e):
    fr = product_frame(e.__traceback__)
    loc = '%s:%s' % (fr[0], fr[1]) if fr else 'harness'
    return '%s at %s' % (type(e).__name__, loc), fr


STEP_LIMIT = 60_000_000


def _install_step_budget(limit):
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, 'dst-budget')
    box = [0]

    def on(*a):
        box[0] += 1
        if box[0] > limit:
            mon.set_events(tool, 0)
            raise StepBudget()
    mon.register_callback(tool, mon.events.JUMP, on)
    mon.register_callback(tool, mon.events.PY_START, on)
    mon.set_events(tool, mon.events.JUMP | mon.events.PY_START)
    return box


def run_case(world, seed=None, trace=None, tier='quick', budget=None):
    """Execute one run in this process.  Returns a picklable result dict."""
    from . import seams
    sim = Sim(world.ID, seed, trace, tier)
    res = {'seed': seed, 'status': 'ok', 'kind': None, 'key': None, 'msg': ''}
    out = io.StringIO()
    old = sys.stdout, sys.stderr
    t0 = time.perf_counter()
    try:
        sys.stdout = sys.stderr = out
        seams.begin(sim)
        if budget:
            box = _install_step_budget(budget)
        try:
            world.run(sim)
        finally:
            seams.end(sim)
    except Violation as v:
        res.update(status='violation', kind=v.kind, key=v.key, msg=v.msg)
    except Skip as s:
        res.update(status='skip', msg=str(s))
    except StepBudget:
        res.update(status='violation', kind='no-progress', key='no-progress',
                   msg='exceeded %d interpreter steps without finishing' % budget)
    except MemoryError as e:
        import gc
        d, fr = describe_exc(e)
        res.update(status='violation' if fr else 'harness', kind='no-progress', key='no-progress memory', msg='used up %d GB without finishing, %s' % (MEMORY >> 30, d))
        e.__traceback__ = None
        gc.collect()
    except RecursionError as e:
        d, fr = describe_exc(e)
        res.update(status='violation' if fr else 'harness', kind='exception RecursionError', key='exception ' + d, msg=d)
    except Exception as e:
        d, fr = describe_exc(e)
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if fr is not None and not isinstance(e, HarnessError):
            res.update(status='violation', kind='exception ' + d, key='exception ' + d, msg='%s: %s\n%s' % (type(e).__name__, e, tb))
        elif isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError)) and not isinstance(e, HarnessError) \
                and not re.search(r'\) (takes|missing|got an unexpected|got multiple)', str(e)):
            # what the code under test returned or left behind is not something the oracle can read (say, a phase that is not a number)
            res.update(status='violation', kind='result cannot be interpreted', key='result cannot be interpreted', msg='%s: %s\n%s' % (type(e).__name__, e, tb))
        else:
            res.update(status='harness', kind=type(e).__name__, key='harness', msg=''.join(
                traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        sys.stdout, sys.stderr = old
        if budget:
            try:
                sys.monitoring.set_events(4, 0)
                sys.monitoring.free_tool_id(4)
            except Exception:
                pass
    res.update(fp=sim.h.hexdigest(), steps=sim.steps, faults=sim.faults, cov=sim.cov, simtime=sim.simtime,
               nontrivial=sim.nontrivial, deviations=sim.deviations, decisions=dict(sim.spos),
               wall=time.perf_counter() - t0)
    if budget:
        res['interpreter_steps'] = box[0]
    if res['status'] in ('violation', 'harness'):
        res['trace'] = sim.trace()
        res['events'] = sim.events[-400:]
        res['nevents'] = len(sim.events)
    elif seed is not None and seed % 50 == 3:
        res['sample'] = sim.events[:12]
    return res


def _read_exact(fd, n, deadline):
    buf = b''
    while len(buf) < n:
        left = deadline - time.time()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], min(left, 5))
        if not r:
            continue
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            return b''
        buf += b
    return buf


MEMORY = 4 << 30


def limit_memory():
    # a run that grows without bound gets a MemoryError here instead of the machine getting into trouble
    import resource
    try:
        cur = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (cur + MEMORY, resource.RLIM_INFINITY))
    except (OSError, ValueError):
        pass


def forked(fn, timeout):
    """Run fn() in a forked child with fresh copies of all process state.
    Returns (status, value): 'ok', 'timeout' or 'died'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            limit_memory()
            data = pickle.dumps(fn())
            os.write(w, struct.pack('>Q', len(data)))
            mv = memoryview(data)
            while len(mv):
                k = os.write(w, mv[:65536])
                mv = mv[k:]
        except BrokenPipeError:
            code = 1
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    deadline = time.time() + timeout
    status, val = 'died', None
    try:
        hd = _read_exact(r, 8, deadline)
        if hd is None:
            status = 'timeout'
        elif len(hd) == 8:
            n = struct.unpack('>Q', hd)[0]
            data = _read_exact(r, n, deadline)
            if data is None:
                status = 'timeout'
            elif len(data) == n:
                status, val = 'ok', pickle.loads(data)
    finally:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    return status, val


RUN_TIMEOUT = 20
BUDGET_TIMEOUT = 420


def isolated(world, seed=None, trace=None, tier='quick', timeout=None, budget=None):
    timeout = timeout or (BUDGET_TIMEOUT if budget else getattr(world, 'RUN_TIMEOUT', RUN_TIMEOUT))
    st, res = forked(lambda: run_case(world, seed, trace, tier, budget), timeout)
    if st == 'ok':
        return res
    if st == 'timeout' and not budget:
        # decide deterministically whether this is a lack of progress or a slow machine
        lim = getattr(world, 'STEP_LIMIT', STEP_LIMIT)
        st, res = forked(lambda: run_case(world, seed, trace, tier, lim), BUDGET_TIMEOUT)
        if st == 'ok':
            res['budgeted'] = lim
            return res
    return {'seed': seed, 'status': 'harness', 'kind': st, 'key': st,
            'msg': 'run %s (seed %s)' % (st, seed), 'fp': '', 'steps': 0, 'faults': {}, 'cov': {},
            'simtime': 0, 'nontrivial': False, 'deviations': 0, 'decisions': {}, 'wall': timeout,
            'trace': trace or {'inp': []}, 'events': []}


# ---------------------------------------------------------------------------------------
def _worker(world, seeds, tier, conn_w, deadline):
    for s in seeds:
        if time.time() > deadline:
            rec = {'seed': s, 'status': 'unrun'}
        else:
            rec = isolated(world, s, None, tier)
        data = pickle.dumps(rec)
        os.write(conn_w, struct.pack('>Q', len(data)))
        mv = memoryview(data)
        while len(mv):
            k = os.write(conn_w, mv[:65536])
            mv = mv[k:]


def campaign(world, seeds, tier, workers, deadline, stop_pred):
    """Run all seeds on `workers` processes.  Calls stop_pred(res) on each result; stops early when it
    returns True."""
    procs = []
    gc.collect()
    gc.freeze()
    for i in range(workers):
        part = seeds[i::workers]
        if not part:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for _, rr in procs:
                    os.close(rr)
                _worker(world, part, tier, w, deadline)
            except BrokenPipeError:
                pass                    # the campaign was stopped
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    results = []
    buf = {r: b'' for _, r in procs}
    live = {r for _, r in procs}
    stop = False
    while live and not stop:
        rs, _, _ = select.select(list(live), [], [], 5)
        for r in rs:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                continue
            buf[r] += b
            while len(buf[r]) >= 8:
                n = struct.unpack('>Q', buf[r][:8])[0]
                if len(buf[r]) < 8 + n:
                    break
                res = pickle.loads(buf[r][8:8 + n])
                buf[r] = buf[r][8 + n:]
                results.append(res)
                if stop_pred(res):
                    stop = True
    for pid, r in procs:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        # children of the worker are in their own groups; they die on the next write (closed pipe)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return results


# ---------------------------------------------------------------------------------------
def minimise(world, trace, kind, tier, seconds=60):
    """Greedy shrinking of a failing trace: same failure kind must persist."""
    t_end = time.time() + seconds
    tried = set()
    best = {'inp': list(trace['inp'])}
    for s in SPARSE:
        best[s] = {str(k): v for k, v in trace.get(s, {}).items()}
    tries = [0]

    budget = getattr(world, "STEP_LIMIT", STEP_LIMIT) if kind == 'no-progress' else None

    def ok(t):
        if time.time() > t_end:
            return False
        sig = json.dumps(t, sort_keys=True)
        if sig in tried:
            return False
        tried.add(sig)
        tries[0] += 1
        res = isolated(world, None, t, tier, timeout=30, budget=budget)
        return res['status'] == 'violation' and res['kind'] == kind

    def variant(**kw):
        t = {k: (list(v) if k == 'inp' else dict(v)) for k, v in best.items()}
        t.update(kw)
        return t

    def shrink_inp():
        nonlocal best
        changed = False
        # delete chunks
        k = max(1, len(best['inp']) // 2)
        while k >= 1 and time.time() < t_end:
            i = len(best['inp']) - k
            while i >= 0 and time.time() < t_end:
                cand = best['inp'][:i] + best['inp'][i + k:]
                t = variant(inp=cand)
                if ok(t):
                    best = t
                    changed = True
                i -= k
            k //= 2
        # lower values
        for i in range(len(best['inp'])):
            if time.time() > t_end:
                break
            v = best['inp'][i]
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v:
                    cand = list(best['inp'])
                    cand[i] = nv
                    t = variant(inp=cand)
                    if ok(t):
                        best = t
                        changed = True
                        break
        return changed

    def shrink_sparse(s):
        nonlocal best
        changed = False
        if not best[s]:
            return False
        t = variant(**{s: {}})
        if ok(t):
            best = t
            return True
        keys = sorted(best[s], key=int)
        n = 2
        while len(keys) >= 1 and time.time() < t_end:
            sz = max(1, len(keys) // n)
            progressed = False
            for i in range(0, len(keys), sz):
                keep = keys[:i] + keys[i + sz:]
                t = variant(**{s: {k: best[s][k] for k in keep}})
                if ok(t):
                    best = t
                    keys = keep
                    changed = progressed = True
                    break
            if not progressed:
                if sz == 1:
                    break
                n = min(len(keys), n * 2)
        return changed

    rounds = 0
    while time.time() < t_end and rounds < 6:
        rounds += 1
        ch = False
        for s in ('fault', 'thread', 'order', 'rng'):
            ch |= shrink_sparse(s)
        ch |= shrink_inp()
        if not ch:
            break
    # strip trailing zeros (implicit)
    while best['inp'] and best['inp'][-1] == 0:
        best['inp'].pop()
    return best, tries[0]
