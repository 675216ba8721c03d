"""Writes MANIFEST.json from properties.jsonl and the worlds that exist."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = ('Seeded exploration of real pyzx code under a simulator that owns every order, random draw, fault and interleaving the '
        'property depends on; a violation is a replayable run. No claim beyond the runs explored. Trusts the oracle named in '
        'DESIGN.md and numpy.')
NA = {
 'P31': 'A pure function of the diagram: no schedule, clock, randomness, I/O or party for a simulator to control.',
 'P32': 'Parsing is a pure function of a string; nothing to schedule or fail (file faults are P14, round trips within a history P24).',
 'P33': 'Pure arithmetic on a matrix argument; the one piece of hidden state (default-argument aliasing) is decided by P15/P16.',
 'P34': 'Pure arithmetic; no nondeterminism or environment.',
 'P36': 'Pure function of the diagram; no nondeterminism or environment (the TikZiT process exchange is P18).',
}
TECH = 'deterministic simulation with fault injection: '
T = {
 'P01': 'simulated matcher/enumeration order', 'P02': 'simulated user choosing rewrites', 'P03': 'simulated order with step-counted progress',
 'P04': 'simulated order through simplify and extract', 'P05': 'simulated RNG, order and external solver', 'P06': 'adversarial RNG stream',
 'P07': 'adversarial RNG and order', 'P08': 'adversarial RNG and simulated worker pool', 'P09': 'edit histories against a reference model',
 'P10': 'derive/mutate histories with snapshots', 'P11': 'replication with crash and restart', 'P12': 'checkpoint, crash, restart, torn files',
 'P13': 'simulated browser and message channel', 'P14': 'simulated file system with faults and crashes', 'P15': 'simulated threads at line granularity',
 'P16': 'history and hash-seed variation against a fresh process', 'P17': 'crash points at rewrite boundaries', 'P18': 'simulated external processes and temp files',
 'P19': 'simulated order on pairs of circuits', 'P20': 'simulated order on H-box diagrams', 'P21': 'simulated order against the flow conditions',
 'P22': 'simulated measurement outcomes against a state-vector model',
 'P23': 'simulated random draws, extremes included, against what was requested',
 'P24': 'simulated edit histories with refused operations against a unitary model',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'dst/worlds', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=TECH + T[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Check not built yet.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='check.py re-executes itself with /opt/venv/bin/python, a fixed hash seed and single-threaded BLAS. Seams are an import '
               'hook and monkeypatches in /verif/dst/seams.py; /repo carries no hooks, only fix: commits.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
