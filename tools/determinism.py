#!/usr/bin/env python3
"""tools/determinism.py [runs] [P01 P02 ...]: one seed must be one exactly repeatable execution.

Runs the same seeds of every world in three separate processes (forward, backward, and with another PYTHONHASHSEED)
and compares the fingerprints of the executions (every logged event, every drawn fault).  Exit 1 if any differs.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
BODY = '''
import sys, json, importlib, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, %r)
from dst import core, seams
w = importlib.import_module('dst.worlds.' + sys.argv[1].lower())
seams.load(getattr(w, 'SIMSET', True))
if hasattr(w, 'setup'):
    w.setup()
out = {}
for s in json.loads(sys.argv[2]):
    r = core.isolated(w, s, None, 'quick')
    out[s] = [r['status'], r['kind'], r['fp'], r['steps'], r['faults']]
sys.stdout.write('RESULT' + json.dumps(out) + chr(10))
''' % HERE


def go(pid, seeds, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='Agg', DST_CHILD='1', PYTHONWARNINGS='ignore')
    return subprocess.Popen([PY, '-W', 'ignore', '-c', BODY, pid, json.dumps(seeds)], env=env, cwd=HERE, stdout=subprocess.PIPE, text=True)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    pids = sys.argv[2:] or ['P%02d' % i for i in range(1, 25)]
    bad = 0
    for pid in pids:
        seeds = list(range(40_000_000, 40_000_000 + n))
        ps = [go(pid, seeds, '0'), go(pid, seeds[::-1], '0'), go(pid, seeds, '12345')]
        rs = []
        for p in ps:
            o = p.communicate()[0]
            rs.append(json.loads(o[o.index('RESULT') + 6:]))
        a = [s for s in rs[0] if rs[0][s] != rs[1][s]]
        b = [s for s in rs[0] if rs[0][s] != rs[2][s]]
        bad += bool(a) + bool(b)
        print(pid, '%d seeds, differ between processes: %s, under another hash seed: %s' % (n, a[:4], b[:4]), flush=True)
    return 1 if bad else 0


sys.exit(main())
