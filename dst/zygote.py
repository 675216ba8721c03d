"""Processes with other string-hash seeds (and address layouts) that run a part of a simulated run from a fresh state.
The parent starts one per hash seed; each forks a child per request, so no request sees what another left behind."""
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys

HASH_SEEDS = (1, 2, 31337)
_addr = {}
_procs = []


def _die_with_parent():
    import ctypes
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def start(world):
    """Start the processes (called once in the campaign's main process)."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for hs in HASH_SEEDS:
        s = socket.socket(socket.AF_UNIX)
        addr = '\0dst-%d-%d' % (os.getpid(), hs)
        s.bind(addr)
        s.listen(256)
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        code = 'import sys; sys.path.insert(0, %r); from dst import zygote; zygote.serve(%d, %r)' % (here, s.fileno(), world)
        _procs.append(subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], env=env, pass_fds=[s.fileno()], preexec_fn=_die_with_parent,
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL))
        s.close()
        _addr[hs] = addr


def _recv(c, n):
    b = b''
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x:
            raise EOFError('peer closed')
        b += x
    return b


def _send(c, obj):
    d = pickle.dumps(obj)
    c.sendall(struct.pack('>Q', len(d)) + d)


def _get(c):
    return pickle.loads(_recv(c, struct.unpack('>Q', _recv(c, 8))[0]))


def ask(hs, request, timeout=120):
    """The reply of a fresh process with hash seed hs."""
    from .core import HarnessError
    try:
        c = socket.socket(socket.AF_UNIX)
        c.settimeout(timeout)
        c.connect(_addr[hs])
        with c:
            _send(c, request)
            ok, val = _get(c)
    except (OSError, EOFError) as e:
        raise HarnessError('process with hash seed %s: %r' % (hs, e))
    if not ok:
        raise HarnessError('process with hash seed %s failed: %s' % (hs, val))
    return val


def serve(fd, worldname):
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    from . import seams
    world = importlib.import_module('dst.worlds.' + worldname)
    seams.load(getattr(world, 'SIMSET', True))
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ls = socket.socket(fileno=fd)
    while True:
        c, _ = ls.accept()
        if os.fork():
            c.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(110)
            ls.close()
            req = _get(c)
            try:
                _send(c, (True, world.remote(req)))
            except BaseException:
                import traceback
                _send(c, (False, traceback.format_exc()))
        finally:
            os._exit(0)
