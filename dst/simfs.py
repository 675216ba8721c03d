"""File system and process seams.

All paths the code under test touches live in one scratch directory (created per run, removed afterwards).  While the
simulation is active, opening, reading, writing, closing, renaming and removing files inside it goes through the simulator,
which may fail the call, tear a write, or crash the process: after a crash nothing the program does reaches the directory any
more (its buffered data is lost), so what is left is what durable storage would hold.  External programs are stand-ins."""
import builtins
import errno
import io
import os
import shutil
import subprocess
import sys
import tempfile

_real_open = io.open
_os = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'makedirs', 'rmdir', 'open', 'fsync', 'truncate',
                                   'fdopen', 'link', 'symlink') if hasattr(os, n)}
_sp = {n: getattr(subprocess, n) for n in ('check_output', 'check_call', 'call', 'run', 'Popen', 'getoutput', 'getstatusoutput')}
_sys = {'system': os.system, 'popen': os.popen}


class Crash(BaseException):
    """The simulated process was killed."""


ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'ENOENT': errno.ENOENT, 'EROFS': errno.EROFS}


def oserr(name, path=None):
    return OSError(ERR[name], os.strerror(ERR[name]), path)


class FaultFile:
    """Text or binary file whose written data stays in a process buffer until flush/close."""
    def __init__(self, fs, path, mode, args, kw):
        self.fs, self.path, self.mode = fs, path, mode
        self.rel = fs.rel(path)
        self.writing = any(c in mode for c in 'wax+')
        self._f = _real_open(path, mode, *args, **kw)
        self.name = getattr(self._f, 'name', path)
        self.closed_ = False
        self.pending = []
        self.dirty = False

    # -- reading
    def _rd(self, fn, *a):
        k = self.fs.op('read', self.rel, ['EIO'])
        if k:
            raise oserr(k, None)
        self._push()
        r = fn(*a)
        return r

    def read(self, *a): return self._rd(self._f.read, *a)
    def readline(self, *a): return self._rd(self._f.readline, *a)
    def readlines(self, *a): return self._rd(self._f.readlines, *a)
    def __iter__(self): return self
    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    # -- writing
    def write(self, data):
        if not self.writing:
            return self._f.write(data)        # raises as usual
        k = self.fs.op('write', self.rel, ['ENOSPC', 'EIO'], crashable=True)
        self.fs.wrote(self.path)
        if k:                                # part of the data reaches the disk, then the call fails
            self.pending.append(data[:len(data) // 2])
            self._push()
            raise oserr(k, None)
        self.pending.append(data)
        self.dirty = True
        if sum(len(p) for p in self.pending) > 8192:
            self._push()
        return len(data)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def _push(self):
        if self.pending and not self.fs.crashed:
            p, self.pending = self.pending, []
            for d in p:
                self._f.write(d)
            self._f.flush()

    def flush(self):
        if self.dirty:
            k = self.fs.op('flush', self.rel, ['ENOSPC', 'EIO'], crashable=True, torn=self)
            if k:
                self._tear()
                raise oserr(k, None)
        self._push()
        self.dirty = False

    def _tear(self):
        """half of what is buffered reaches the disk"""
        data = self.pending
        self.pending = []
        if not data:
            return
        tot = data[0][:0].join(data)
        try:
            self._f.write(tot[:len(tot) // 2])
            self._f.flush()
        except ValueError:
            pass

    def close(self):
        if self.closed_:
            return
        if self.fs.crashed:
            self._shut()
            raise Crash()
        if self.dirty:
            try:
                k = self.fs.op('close', self.rel, ['ENOSPC', 'EIO'], crashable=True, torn=self)
            except Crash:
                self._shut()
                raise
            if k:
                self._tear()
                self._shut()
                raise oserr(k, None)
        self._push()
        self.dirty = False
        self._shut()

    def _shut(self):
        self.closed_ = True
        try:
            self._f.close()
        except OSError:
            pass

    @property
    def closed(self): return self.closed_
    def __enter__(self): return self
    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        # a file object that is dropped is flushed and closed by the interpreter; errors are swallowed there
        if not self.closed_ and not self.fs.crashed:
            try:
                self._push()
            except Exception:
                pass
        if not self.closed_:
            self._shut()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        self._push()
        return getattr(self._f, n)


class SimFS:
    """fault plan: at most `budget` faults; p is the probability per operation."""
    def __init__(self, sim, p=0.0, budget=1, crash=False, procs=None):
        self.sim, self.p, self.budget, self.crash_ok = sim, p, budget, crash
        self.crashed = False
        self.root = None
        self.ops = 0
        self.written = set()
        self.fired = []
        self.procs = procs
        self.calls = []

    # ---- plan
    def op(self, what, rel, kinds, crashable=False, torn=None):
        """Returns an error name or None; may crash."""
        if self.crashed:
            raise Crash()
        self.ops += 1
        self.sim.log('fs %s %s' % (what, rel))
        if self.p <= 0 or self.budget <= 0:
            return None
        n = 1 + len(kinds) + (2 if self.crash_ok and crashable else 0)
        v = self.sim.deviate('fault', n, self.p)
        if not v:
            return None
        self.budget -= 1
        if v <= len(kinds):
            self.sim.count_fault('%s:%s' % (what, kinds[v - 1]))
            self.sim.log('FAULT %s %s on %s' % (kinds[v - 1], what, rel))
            self.fired.append((what, rel, kinds[v - 1]))
            return kinds[v - 1]
        how = 'crash-before' if v == len(kinds) + 1 else 'crash-torn'
        self.sim.count_fault(how + ':' + what)
        self.sim.log('FAULT %s %s on %s' % (how, what, rel))
        self.fired.append((what, rel, how))
        if torn is not None and how == 'crash-torn':
            torn._tear()
        self.crashed = True
        raise Crash()

    def wrote(self, path):
        self.written.add(self.rel(path))

    def rel(self, path):
        try:
            return os.path.relpath(os.path.realpath(os.fspath(path)), self.root)
        except Exception:
            return str(path)

    def inside(self, path):
        if not isinstance(path, (str, bytes, os.PathLike)):
            return False
        p = os.path.realpath(os.fspath(path))
        if isinstance(p, bytes):
            p = p.decode()
        return p == self.root or p.startswith(self.root + os.sep)

    # ---- patched entry points
    def _open(self, file, mode='r', *a, **k):
        if not self.active or not self.inside(file):
            return _real_open(file, mode, *a, **k)
        wr = any(c in mode for c in 'wax+')
        e = self.op('open-w' if wr else 'open-r', self.rel(file), ['EACCES', 'EMFILE', 'ENOSPC' if wr else 'ENOENT'], crashable=wr)
        if e:
            raise oserr(e, file)
        if wr:
            self.wrote(file)
        return FaultFile(self, file, mode, a, k)

    def _wrap(self, name, kinds):
        real = _os[name]

        def f(path, *a, **k):
            if not self.active or not self.inside(path):
                return real(path, *a, **k)
            e = self.op(name, self.rel(path), kinds, crashable=True)
            if e:
                raise oserr(e, path)
            r = real(path, *a, **k)
            if name in ('rename', 'replace') and a:
                self.wrote(a[0])
            return r
        return f

    def _osopen(self, path, flags, *a, **k):
        if not self.active or not self.inside(path):
            return _os['open'](path, flags, *a, **k)
        e = self.op('os.open', self.rel(path), ['EACCES', 'ENOSPC'], crashable=bool(flags & os.O_CREAT))
        if e:
            raise oserr(e, path)
        return _os['open'](path, flags, *a, **k)

    # ---- processes
    def _spawn(self, args, how, kw):
        self.calls.append((how, args))
        self.sim.log('spawn %s' % how)
        if self.crashed:
            raise Crash()
        if self.procs is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', args[0] if isinstance(args, (list, tuple)) else args)
        return self.procs(args)      # (returncode, stdout bytes) or raises OSError

    def _check_output(self, args, **kw):
        rc, out = self._spawn(args, 'check_output', kw)
        if rc:
            raise subprocess.CalledProcessError(rc, args, out)
        return self._text(out, kw)

    def _text(self, out, kw):
        if kw.get('text') or kw.get('universal_newlines') or kw.get('encoding'):
            return out.decode(kw.get('encoding') or 'utf-8')
        return out

    def _check_call(self, args, **kw):
        rc, _ = self._spawn(args, 'check_call', kw)
        if rc:
            raise subprocess.CalledProcessError(rc, args)
        return 0

    def _call(self, args, **kw):
        return self._spawn(args, 'call', kw)[0]

    def _run(self, args, **kw):
        rc, out = self._spawn(args, 'run', kw)
        if kw.get('check') and rc:
            raise subprocess.CalledProcessError(rc, args, out)
        o = self._text(out, kw) if kw.get('capture_output') or kw.get('stdout') else None
        return subprocess.CompletedProcess(args, rc, o, None)

    def _popen(self, args, *a, **kw):
        fs = self

        class P:
            def __init__(s):
                s.returncode, s.out = fs._spawn(args, 'Popen', kw)
                s.stdout = io.BytesIO(s.out)
                s.pid = 4242

            def communicate(s, *a, **k): return (fs._text(s.out, kw), None)
            def wait(s, *a, **k): return s.returncode
            def poll(s): return s.returncode
            def __enter__(s): return s
            def __exit__(s, *a): return False
        return P()

    # ---- lifetime
    def __enter__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.scratch = os.path.realpath(tempfile.mkdtemp(prefix='dstfs', dir=base))
        # the directory name must not depend on the run: everything observable lives below a fixed-length path
        self.root = self.scratch
        self.tmp = os.path.join(self.root, 'tmp')
        self.work = os.path.join(self.root, 'work')
        os.mkdir(self.tmp)
        os.mkdir(self.work)
        self.saved_tmp = tempfile.tempdir, tempfile._name_sequence
        tempfile.tempdir = self.tmp
        tempfile._name_sequence = ('t%04d' % i for i in range(10000))
        self.cwd = os.getcwd()
        os.chdir(self.work)
        self.active = True
        io.open = builtins.open = self._open
        for n, kinds in (('remove', ['EACCES']), ('unlink', ['EACCES']), ('rename', ['EACCES', 'EIO']), ('replace', ['EACCES', 'EIO']),
                         ('mkdir', ['EACCES', 'ENOSPC']), ('rmdir', [])):
            setattr(os, n, self._wrap(n, kinds))
        os.open = self._osopen
        subprocess.check_output, subprocess.check_call, subprocess.call = self._check_output, self._check_call, self._call
        subprocess.run, subprocess.Popen = self._run, self._popen
        os.system = lambda c: self._call(c)
        # names imported directly into pyzx modules
        self.direct = []
        table = {id(_real_open): self._open}
        for n, f in _sp.items():
            if hasattr(self, '_' + n):
                table[id(f)] = getattr(self, '_' + n)
        table[id(_sp['run'])] = self._run
        table[id(_sp['Popen'])] = self._popen
        for name, mod in list(sys.modules.items()):
            if name.startswith('pyzx') and mod is not None:
                for k, v in list(mod.__dict__.items()):
                    if id(v) in table and callable(v):
                        self.direct.append((mod, k, v))
                        mod.__dict__[k] = table[id(v)]
        return self

    def __exit__(self, *a):
        self.active = False
        io.open = builtins.open = _real_open
        for n, f in _os.items():
            setattr(os, n, f)
        for n, f in _sp.items():
            setattr(subprocess, n, f)
        os.system = _sys['system']
        for mod, k, v in self.direct:
            mod.__dict__[k] = v
        tempfile.tempdir, tempfile._name_sequence = self.saved_tmp
        os.chdir(self.cwd)
        self.files_left = self.listing(self.tmp)
        shutil.rmtree(self.scratch, ignore_errors=True)
        return False

    # ---- oracle access (never faulted)
    def put(self, name, text):
        p = os.path.join(self.work, name)
        os_mk = _os['makedirs']
        act, self.active = self.active, False
        try:
            os_mk(os.path.dirname(p), exist_ok=True)
            with _real_open(p, 'w') as f:
                f.write(text)
        finally:
            self.active = act
        return p

    def get(self, name):
        p = os.path.join(self.work, name)
        try:
            with _real_open(p) as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError):
            return None

    def listing(self, d=None):
        out = []
        for r, ds, fs in os.walk(d or self.work):
            for f in fs:
                out.append(os.path.relpath(os.path.join(r, f), d or self.work))
            for f in ds:
                out.append(os.path.relpath(os.path.join(r, f), d or self.work) + '/')
        return sorted(out)
