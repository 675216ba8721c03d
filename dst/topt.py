"""Stand-in for the TOpt executable: reads the .gsm file it is handed and prints an answer in TOpt's format."""
import os
import random as _r
import subprocess
from .core import Random
from .simfs import _real_open


def parse(path):
    with _real_open(path) as f:
        txt = f.read()
    return [[int(x) for x in l.split()] for l in txt.splitlines() if l.strip()]


def show(rows):
    return ('TOpt v1.0\nInput gate synthesis matrix:\nread\n' + 'Running TODD\n' +
            'Output gate synthesis matrix:\n\n' + '\n'.join(''.join(str(x) for x in r) for r in rows) +
            '\nSuccessful!\nTotal time: 0.01s\n')


def reduce_(cols):
    out = []
    for c in cols:
        if not any(c):
            continue
        if c in out:
            out.remove(c)
        else:
            out.append(c)
    return out


def answer(rows, seed, how):
    """A correct answer: the same cubic form modulo Clifford corrections."""
    r = Random(seed)
    n = len(rows)
    cols = [list(c) for c in zip(*rows)] if rows else []
    if how == 'same':
        return rows
    if how == 'shuffled':
        r.shuffle(cols)
    elif how == 'identity' and n >= 4:
        # the 15 non-zero points of a 4-dimensional subspace sum to a Clifford
        for _ in range(20):
            b = [[r.randrange(2) for _ in range(n)] for _ in range(4)]
            pts = set()
            for k in range(1, 16):
                v = [0] * n
                for i in range(4):
                    if k >> i & 1:
                        v = [x ^ y for x, y in zip(v, b[i])]
                pts.add(tuple(v))
            if len(pts) == 15 and (0,) * n not in pts:
                cols = reduce_(cols + [list(p) for p in sorted(pts)])
                break
        r.shuffle(cols)
    elif how == 'todd':
        from . import seams
        import pyzx.todd as t
        from pyzx.linalg import Mat2
        m = Mat2([list(x) for x in rows])
        k = 1
        while k and m.cols() > 1:
            m, k = t.do_todd_single(m)
        if m.data and m.data[0]:
            return [list(x) for x in m.data]
        return rows
    if not cols:
        return rows      # never hand out an empty matrix: TOpt's format for it is not known
    return [list(x) for x in zip(*cols)]


GOOD = ['same', 'shuffled', 'identity', 'todd']     # a T-count optimiser never prints the same column twice
BAD = ['missing', 'exit', 'empty', 'truncated', 'garbled', 'ragged', 'wrong', 'binary', 'nosuccess']


class Solver:
    """procs callback for SimFS.  p_bad: probability that an invocation misbehaves."""
    def __init__(self, sim, p_bad=0.0):
        self.sim, self.p_bad = sim, p_bad
        self.bad = []
        self.n = 0
        self.inflated = False      # an answer was correct but used more terms than it was given

    def __call__(self, args):
        self.n += 1
        sim = self.sim
        path = [a for a in args if str(a).endswith('.gsm')]
        if not path or not os.path.exists(path[0]):
            sim.fail('hand-off', 'the solver was started without its input file: %s' % (args,))
        rows = parse(path[0])
        k = sim.deviate('fault', 1 + len(BAD), self.p_bad) if self.p_bad else 0
        how = sim.pick(GOOD)
        seed = sim.choose(1 << 20)
        ans = answer(rows, seed, how)
        if len(ans[0]) > len(rows[0]):
            self.inflated = True
        good = show(ans)
        sim.cover('solver:' + (BAD[k - 1] if k else how))
        if not k:
            return 0, good.encode()
        bad = BAD[k - 1]
        sim.count_fault('solver:' + bad)
        sim.log('FAULT solver %s' % bad)
        self.bad.append(bad)
        if bad == 'missing':
            raise FileNotFoundError(2, 'No such file or directory', args[0])
        if bad == 'exit':
            return (1 + seed % 3), good.encode()
        if bad == 'empty':
            return 0, b''
        if bad == 'truncated':
            return 0, good.encode()[:seed % max(1, len(good))]
        if bad == 'garbled':
            b = list(good)
            i = good.find('Output gate') + 30
            for _ in range(3):
                b[min(len(b) - 1, i + seed % 40)] = 'x'
                seed //= 3
            return 0, ''.join(b).encode()
        if bad == 'ragged':
            r2 = [list(r) for r in rows]
            r2[seed % len(r2)].append(1)
            return 0, show(r2).encode()
        if bad == 'wrong':
            r2 = [list(r) for r in rows]
            for _ in range(1 + seed % 3):
                i = seed % len(r2)
                j = (seed // 7) % len(r2[i])
                r2[i][j] ^= 1
                seed //= 5
            return 0, show(r2).encode()
        if bad == 'nosuccess':
            return 0, good.replace('Successful', 'Failed').encode()
        return 0, b'\xff\xfe\x00\x80' + good.encode()
