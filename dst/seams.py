"""Seams: everything nondeterministic that PyZX's behaviour may depend on goes through here.

* iteration/pop order of sets      - import hook: set displays, comprehensions and set() calls in pyzx
                                     modules build SimSet, whose order the simulator decides
* vertex/edge/neighbour order      - the graph backends' enumeration methods
* random, numpy.random             - SimRandom / SimNp, seeded from the trace, with adversarial draws
* clock, sleep                     - SimClock
* progress bars                    - stubbed (they own a thread)
The shipped sources are not edited; without this module pyzx is unchanged.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import random as _random
import sys
import time as _time
from fractions import Fraction

from .core import REPO, PKG, Random

_sim = None       # the active Sim


# ---- sets ---------------------------------------------------------------------------------
class _SetMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, set) if cls is SimSet else type.__instancecheck__(cls, obj)


_bset = set


def _canon(lst):
    """An order that does not depend on the interpreter's string-hash seed or on addresses."""
    if lst and isinstance(lst[0], str):
        try:
            return sorted(lst)
        except TypeError:
            return lst
    return lst


def _dense(lst):
    """{0,...,n-1}: CPython enumerates such a set in increasing order, whatever happens (small ints hash to
    themselves and fit the table), so no other order can occur in a deployment."""
    n = len(lst)
    for i, x in enumerate(lst):
        if x.__class__ is not int or x != i:
            return False
    return True


def _numeric(lst):
    """Hashes of these values do not depend on the interpreter's hash seed or on addresses."""
    for x in lst:
        if not (isinstance(x, (int, float, Fraction)) or x is None or (isinstance(x, (tuple, frozenset)) and _numeric(x))):
            return False
    return True


class SimSet(set):
    __slots__ = ('_salt',)

    def _order(self):
        lst = _canon(list(set.__iter__(self)))
        if _sim is None or len(lst) < 2 or _dense(lst):
            return lst
        if _sim.hash_only and _numeric(lst):
            return lst
        try:
            salt = self._salt
        except AttributeError:
            salt = self._salt = _sim.order(1 << 24)
        if salt:
            if salt & 3 == 1:
                lst.reverse()
            else:
                Random(salt).shuffle(lst)
        return lst

    def __iter__(self):
        if _sim is None:
            return set.__iter__(self)
        lst = self._order()
        return _guarded(self, lst)

    def pop(self):
        if _sim is None or len(self) < 2:
            return set.pop(self)
        n = len(self)
        if _sim.hash_only and _numeric(self):
            return set.pop(self)
        k = _sim.order(min(n, 64))
        if k == 0:
            for x in set.__iter__(self):
                break
            if isinstance(x, str):
                x = _canon(list(set.__iter__(self)))[0]
        else:
            lst = _canon(list(set.__iter__(self)))
            x = lst[-1] if k == 1 else lst[(k * 7919) % n]
        set.discard(self, x)
        return x

    # operators must stay in the simulated type
    def __or__(self, o): return SimSet(set.__or__(self, o)) if isinstance(o, _abstract) else NotImplemented
    def __and__(self, o): return SimSet(set.__and__(self, o)) if isinstance(o, _abstract) else NotImplemented
    def __sub__(self, o): return SimSet(set.__sub__(self, o)) if isinstance(o, _abstract) else NotImplemented
    def __xor__(self, o): return SimSet(set.__xor__(self, o)) if isinstance(o, _abstract) else NotImplemented
    def __ror__(self, o): return SimSet(set.__or__(_bset(o), self)) if isinstance(o, _abstract) else NotImplemented
    def __rand__(self, o): return SimSet(set.__and__(_bset(o), self)) if isinstance(o, _abstract) else NotImplemented
    def __rsub__(self, o): return SimSet(set.__sub__(_bset(o), self)) if isinstance(o, _abstract) else NotImplemented
    def union(self, *o): return SimSet(set.union(self, *o))
    def intersection(self, *o): return SimSet(set.intersection(self, *o))
    def difference(self, *o): return SimSet(set.difference(self, *o))
    def symmetric_difference(self, o): return SimSet(set.symmetric_difference(self, o))
    def copy(self): return SimSet(set.__iter__(self))
    def __copy__(self): return self.copy()
    def __reduce__(self): return (set, (list(set.__iter__(self)),))
    def __repr__(self): return set.__repr__(_bset(set.__iter__(self)))
    __hash__ = None


_abstract = (set, frozenset)


def _guarded(s, lst):
    n = len(s)
    for x in lst:
        if len(s) != n:
            raise RuntimeError('Set changed size during iteration')
        yield x


class _T(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'set':
            node.func = ast.copy_location(ast.Name('__simset__', ast.Load()), node.func)
        return node

    def _wrap(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__simset__', ast.Load()), node), [node], []), node)
    visit_Set = _wrap
    visit_SetComp = _wrap

    # annotations are left alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(n) for n in node.body]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = _T().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__simset__'] = SimSet
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'pyzx' and not name.startswith('pyzx.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, [REPO] if name == 'pyzx' else path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


# ---- graph enumeration order ----------------------------------------------------------------
def _perm(lst, salt):
    if salt & 3 == 1:
        return lst[::-1]
    Random(salt).shuffle(lst)
    return lst


# Copying numbers the new vertices in enumeration order, and callers rely on two copies of the same diagram
# being numbered alike, which every real enumeration order gives: copies are made in the natural order.
_copying = 0


def _patch_copy(base):
    orig = base.__dict__.get('copy')
    if orig is None:
        return

    def copy(self, *a, **k):
        global _copying
        _copying += 1
        try:
            return orig(self, *a, **k)
        finally:
            _copying -= 1
    copy.__doc__ = orig.__doc__
    base.copy = copy


def _patch_backend(cls):
    def wrap(name, keyed):
        if name not in cls.__dict__:
            return
        orig = cls.__dict__[name]

        def f(self, *a, **k):
            r = orig(self, *a, **k)
            if _sim is None or not _sim.p_graph or _copying or (name == 'vertices' and getattr(_sim, 'keep_vertices', False)):
                return r
            try:
                salts = self.__dict__['_dst_salts']
            except KeyError:
                salts = self.__dict__['_dst_salts'] = {}
            if name not in salts:
                salts[name] = _sim.deviate('order', 1 << 24, _sim.p_graph)
            s = salts[name]
            if not s:
                return r
            lst = list(r)
            if len(lst) < 2:
                return lst
            if keyed and a:
                s = (s * 1000003 + hash(a[0])) & 0xffffff
            return _perm(lst, s)
        f.__name__ = name
        setattr(cls, name, f)
    for n, keyed in (('vertices', False), ('neighbors', True), ('incident_edges', True)):
        wrap(n, keyed)
    # edges(): only the whole-graph enumeration
    orig_edges = cls.__dict__.get('edges')
    if orig_edges is not None:
        def edges(self, *a, **k):
            r = orig_edges(self, *a, **k)
            if a or k or _sim is None or not _sim.p_graph:
                return r
            salts = self.__dict__.setdefault('_dst_salts', {})
            if 'edges' not in salts:
                salts['edges'] = _sim.deviate('order', 1 << 24, _sim.p_graph)
            s = salts['edges']
            if not s:
                return r
            return iter(_perm(list(r), s))
        cls.edges = edges


# ---- randomness ------------------------------------------------------------------------------
class SimRandom(_random.Random):
    """Seeded generator whose draws the simulator may replace by extreme values."""
    def random(self):
        x = super().random()
        if _sim is not None:
            v = _sim.deviate('rng', 4, _sim.p_rng)
            if v:
                return (0.0, 0.0, 1 - 2.0 ** -53, 0.5)[v]
        return x

    def getrandbits(self, k):
        x = super().getrandbits(k)
        if _sim is not None:
            v = _sim.deviate('rng', 3, _sim.p_rng)
            if v == 1:
                return 0
            if v == 2:
                return (1 << k) - 1
        return x


_RND = ['random', 'uniform', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices', 'gauss',
        'normalvariate', 'getrandbits', 'seed', 'triangular', 'betavariate', 'expovariate', 'randbytes',
        'getstate', 'setstate']
_NPR = ['choice', 'rand', 'randn', 'random', 'random_sample', 'randint', 'shuffle', 'permutation', 'normal',
        'uniform', 'seed', 'binomial', 'standard_normal', 'get_state', 'set_state']


_ORIG_R = {n: getattr(_random, n) for n in _RND if hasattr(_random, n)}


def _ORIG_N(np, cache={}):
    if not cache:
        cache.update({n: getattr(np.random, n) for n in _NPR if hasattr(np.random, n)})
    return cache


class SimNp:
    def __init__(self, np, seed):
        self.rs = np.random.RandomState(seed)
        self.np = np

    def dev(self, n):
        return _sim.deviate('rng', n, _sim.p_rng) if _sim is not None else 0

    def rand(self, *a):
        x = self.rs.rand(*a)
        v = self.dev(4)
        if v:
            x = x * 0 + (0, 0.0, 1 - 2.0 ** -53, 0.5)[v]
        return x

    def random(self, size=None):
        return self.rand() if size is None else self.rs.random_sample(size)
    random_sample = random

    def randint(self, low, high=None, size=None, **k):
        x = self.rs.randint(low, high, size, **k)
        if size is None:
            v = self.dev(3)
            lo, hi = (0, low) if high is None else (low, high)
            if v:
                return type(x)(lo if v == 1 else hi - 1)
        return x

    def choice(self, a, size=None, replace=True, p=None):
        x = self.rs.choice(a, size, replace, p)
        if size is None:
            v = self.dev(3)
            if v:
                seq = self.np.arange(a) if isinstance(a, (int, self.np.integer)) else self.np.asarray(a)
                if p is not None:
                    seq = seq[self.np.asarray(p) > 0]
                return seq[0 if v == 1 else -1]
        return x

    def permutation(self, x):
        v = self.dev(3)
        r = self.rs.permutation(x)
        if v:
            r = self.np.arange(x) if isinstance(x, (int, self.np.integer)) else self.np.array(x)
            if v == 2:
                r = r[::-1]
        return r

    def shuffle(self, x):
        v = self.dev(3)
        self.rs.shuffle(x)
        if v == 1:
            try:
                x.sort()
            except Exception:
                pass

    def __getattr__(self, n):
        return getattr(self.rs, n)


class SimClock:
    def __init__(self):
        self.t = 1_600_000_000.0

    def time(self):
        self.t += 1e-6
        return self.t
    perf_counter = monotonic = process_time = time

    def sleep(self, s):
        self.t += max(0, s)
        if _sim is not None:
            _sim.simtime += max(0, s)
            _sim.cover('sleep')

    def __getattr__(self, n):
        return getattr(_time, n)


class _Tqdm:
    """Stand-in for progress bars (the real ones own a monitor thread and look at the clock)."""
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getattr__(self, n): return lambda *a, **k: None


_loaded = False


def load(simset=True):
    """Import pyzx from /repo through the seams (once per process)."""
    global _loaded
    if _loaded:
        return sys.modules['pyzx']
    _loaded = True
    sys.dont_write_bytecode = True
    from . import simthread
    simthread.install_locks()
    if simset:
        sys.meta_path.insert(0, _Finder())
    else:
        sys.path.insert(0, REPO)
    # with stdin/stdout of a check, IPython is not running: get_mode() says "shell"
    import pyzx
    import pyzx.scripts  # noqa
    import pyzx.gflow, pyzx.mbqc, pyzx.gadget_extract, pyzx.altextract, pyzx.basicrules  # noqa
    import pyzx.graph.diff, pyzx.graph.multigraph  # noqa
    for m in ('pyzx.circuit.qcparser', 'pyzx.circuit.quipperparser', 'pyzx.circuit.qasmparser', 'pyzx.circuit.qsimparser',
              'pyzx.circuit.emojiparser', 'pyzx.editor', 'pyzx.editor_actions', 'pyzx.parity_network',
              'pyzx.routing.phase_poly', 'pyzx.routing.machine_learning', 'pyzx.routing.cnot_mapper'):
        try:
            __import__(m)
        except ImportError:
            pass
    assert pyzx.__file__.startswith(PKG), pyzx.__file__
    import numpy
    _ORIG_N(numpy)
    from pyzx.graph.graph_s import GraphS
    from pyzx.graph.multigraph import Multigraph
    if simset:
        for cls in (GraphS, Multigraph):
            _patch_backend(cls)
        from pyzx.graph.base import BaseGraph
        _patch_copy(BaseGraph)
    for name, mod in list(sys.modules.items()):
        if name.startswith('pyzx') and mod is not None:
            if 'tqdm' in mod.__dict__:
                mod.__dict__['tqdm'] = _Tqdm
    return pyzx


_saved = {}


def begin(sim):
    global _sim
    import numpy as np
    if not hasattr(sim, 'p_graph'):
        sim.p_graph = 0.0
    if not hasattr(sim, 'rng_seed'):
        sim.rng_seed = 12345
    _sim = sim
    install_rng(sim.rng_seed)
    sim.clock = SimClock()
    for name, mod in list(sys.modules.items()):
        if name.startswith('pyzx') and mod is not None and mod.__dict__.get('time') is _time:
            mod.__dict__['time'] = sim.clock
            _saved.setdefault('time', []).append(mod)


def install_rng(seed):
    import numpy as np
    r = SimRandom(seed)
    if 'random' not in _saved:
        _saved['random'] = {n: getattr(_random, n) for n in _RND if hasattr(_random, n)}
        _saved['np'] = {n: getattr(np.random, n) for n in _NPR if hasattr(np.random, n)}
        # functions imported by name into pyzx modules
        byid = {id(f): ('r', n) for n, f in _ORIG_R.items()}
        byid.update({id(f): ('n', n) for n, f in _ORIG_N(np).items()})
        _saved['direct'] = [(mod, k, v, byid[id(v)]) for name, mod in list(sys.modules.items())
                            if name.startswith('pyzx') and mod is not None
                            for k, v in list(mod.__dict__.items()) if id(v) in byid]
    s = SimNp(np, seed & 0x7fffffff)
    use_rng((r, s))
    return r, s


def use_rng(pair):
    """Make this pair of generators the process-wide ones (a simulated worker process has its own)."""
    import numpy as np
    r, s = pair
    _saved['cur'] = pair
    for n in _saved['random']:
        setattr(_random, n, getattr(r, n))
    for n in _saved['np']:
        setattr(np.random, n, getattr(s, n))
    for mod, k, _, (w, n) in _saved['direct']:
        mod.__dict__[k] = getattr(r if w == 'r' else s, n)


def current_rng():
    return _saved['cur']


def fork_rng():
    """A copy of the current generators, as a forked process would have."""
    import numpy as np
    r, s = _saved['cur']
    r2 = SimRandom(0)
    r2.setstate(r.getstate())
    s2 = SimNp(np, 0)
    s2.rs.set_state(s.rs.get_state())
    return r2, s2


def end(sim):
    global _sim
    import numpy as np
    _sim = None
    for n, f in _saved.get('random', {}).items():
        setattr(_random, n, f)
    for n, f in _saved.get('np', {}).items():
        setattr(np.random, n, f)
    for mod, k, v, _ in _saved.get('direct', []):
        mod.__dict__[k] = v
    for mod in _saved.get('time', []):
        mod.__dict__['time'] = _time
    _saved.clear()


class quiet_order:
    """Suspend the order seam (used around oracle code)."""
    def __enter__(self):
        global _sim
        self.s = _sim
        _sim = None

    def __exit__(self, *a):
        global _sim
        _sim = self.s
