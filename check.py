#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE]

Seeded deterministic-simulation campaign for one property against /repo's working tree.
exit 0: held on everything explored; exit 1: VIOLATION line; anything else: the check itself failed.
"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg', 'DST_CHILD': '1', 'PYTHONWARNINGS': 'ignore'}


def reexec():
    if os.environ.get('DST_CHILD') == '1':
        return
    env = dict(os.environ)
    env.update(ENV)
    if env.get('DST_HASHSEED'):
        env['PYTHONHASHSEED'] = env['DST_HASHSEED']
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f.get('status') == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run one absolute seed and print its events')
    ap.add_argument('--keep-going', action='store_true', help='collect all distinct failures (development)')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--minimise', type=float, default=60)
    a = ap.parse_args()
    reexec()
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    t0 = time.time()
    from dst import core, seams
    world = importlib.import_module('dst.worlds.' + a.prop.lower())
    seams.load(getattr(world, 'SIMSET', True))
    if hasattr(world, 'setup'):
        world.setup()

    def show(res, full=True):
        for e in res.get('events', []):
            print('  | ' + e)
        print('  status=%s kind=%s key=%s fp=%s' % (res['status'], res['kind'], res['key'], res['fp']))
        print('  ' + str(res['msg']).replace('\n', '\n  '))

    if a.replay:
        rec = json.load(open(a.replay))
        if rec['property'] != world.ID:
            print('replay file is for property', rec['property'])
            return 2
        res = core.isolated(world, None, rec['trace'], rec.get('tier', 'quick'), budget=rec.get('budget'))
        show(res)
        if res['status'] == 'violation' and res['kind'] == rec['kind']:
            print('reproduced %s; execution fingerprint %s' % (res['kind'], 'identical' if res['fp'] == rec['fingerprint'] else 'DIFFERS'))
            print('VIOLATION property=%s replay=%s' % (world.ID, a.replay))
            return 1
        if res['status'] == 'violation':
            print('a different violation: %s' % res['kind'])
            print('VIOLATION property=%s replay=%s' % (world.ID, a.replay))
            return 1
        print('not reproduced')
        return 0 if res['status'] in ('ok', 'skip') else 3
    if a.one is not None:
        res = core.run_case(world, a.one, None, a.tier)
        core_trace = res.get('trace')
        if core_trace is None:
            res['events'] = ['(ok: run with DST_SHOW=1 for events)']
        show(res)
        return 1 if res['status'] == 'violation' else 0

    known = [f for f in load_known() if f['property'] == world.ID]
    kkeys = {f['key']: f for f in known}
    seen_known = {}
    runs = a.runs or (world.QUICK_RUNS if a.tier == 'quick' else getattr(world, 'THOROUGH_RUNS', world.QUICK_RUNS * 60))
    limit = getattr(world, 'QUICK_LIMIT', 500) if a.tier == 'quick' else getattr(world, 'THOROUGH_LIMIT', 4 * 3600)
    base = a.seed * 10_000_000 + a.start
    seeds = [base + i for i in range(runs)]
    distinct = {}

    def stop(res):
        if res['status'] == 'violation':
            if res['key'] in kkeys:
                seen_known.setdefault(res['key'], res)
                return False
            distinct.setdefault(res['key'], []).append(res)
            return not a.keep_going
        if res['status'] == 'harness':
            distinct.setdefault('HARNESS ' + str(res['kind']), []).append(res)
            return not a.keep_going
        return False

    # listed findings are demonstrated directly as well
    for f in known:
        fn = getattr(world, 'FINDINGS', {}).get(f['key'])
        if fn is not None:
            class W:
                ID = world.ID
                run = staticmethod(fn)
            r = core.isolated(W, 0, None, a.tier)
            if r['status'] == 'violation' and r['key'] == f['key']:
                seen_known.setdefault(f['key'], r)
            elif r['status'] == 'violation':
                distinct.setdefault(r['key'], []).append(r)
    results = core.campaign(world, seeds, a.tier, a.workers, t0 + limit, stop)
    ran = [r for r in results if r['status'] not in ('unrun',)]
    ok = [r for r in ran if r['status'] in ('ok', 'violation')]
    wall = time.time() - t0

    bad = [r for rs in distinct.values() for r in rs if r['status'] == 'violation']
    harness = [r for rs in distinct.values() for r in rs if r['status'] == 'harness']
    # ------- evidence
    fps = {r['fp'] for r in ok if r['nontrivial']}
    faults, cov, dec = {}, {}, {}
    for r in ok:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['cov'].items():
            cov[k] = cov.get(k, 0) + v
        for k, v in r['decisions'].items():
            dec[k] = dec.get(k, 0) + v
    run_s = sum(r.get('wall', 0) for r in ok)
    samples = [{'seed': r['seed'], 'events': r['sample']} for r in ok if r.get('sample')][:4]
    if not samples:
        samples = [{'seed': r['seed'], 'fingerprint': r['fp'], 'steps': r['steps'], 'faults': r['faults']} for r in ok[:3]]
    ev = {
        'property': world.ID, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(ok),
            'distinct_nontrivial': len(fps),
            'rule': getattr(world, 'RULE', '') + ' One evaluation is one seeded simulated run; runs are distinct when their '
                    'event/decision fingerprints differ.',
            'samples': samples,
            'simulated_runs': len(ok),
            'runs_outside_evaluator_bounds': sum(r['status'] == 'skip' for r in ran),
            'runs_per_hour': int(len(ok) / max(wall, 1e-3) * 3600),
            'seeds': [seeds[0], seeds[-1]],
            'steps': sum(r['steps'] for r in ok),
            'simulated_time_s': round(sum(r['simtime'] for r in ok), 3),
            'faults_injected': faults,
            'decision_points': dec,
            'deviations_from_shipped_order': sum(r['deviations'] for r in ok),
            'distinct_executions': len({r['fp'] for r in ok}),
            'coverage_tags': dict(sorted(cov.items())),
            'cpu_s': round(run_s, 1),
            'components_real': getattr(world, 'REAL', 'all of pyzx'),
            'components_stubbed': getattr(world, 'STUB', 'set order, random, clock and progress bars are owned by the simulator'),
            'known_findings_seen': sorted(seen_known),
        },
        'assumptions': getattr(world, 'ASSUME', []),
        'wall_s': round(wall, 2),
        'violations': len(bad),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', world.ID + '.json'), 'w'), indent=1)

    print('%s %s: %d runs (%d skipped, %d unrun), %d distinct non-trivial, %.0f s, faults %s' % (
        world.ID, a.tier, len(ok), sum(r['status'] == 'skip' for r in ran), len(results) - len(ran), len(fps), wall, faults))
    for f in known:
        if f['key'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (world.ID, f['what']))
    if a.keep_going:
        for k, rs in sorted(distinct.items(), key=lambda kv: -len(kv[1])):
            print('--- %s x%d e.g. seeds %s' % (k, len(rs), [r['seed'] for r in rs[:6]]))
            print('    ' + str(rs[0]['msg'])[-1500:].replace('\n', '\n    '))
        return 1 if distinct else 0
    if bad:
        r = bad[0]
        budget = r.get('budgeted')
        again = core.isolated(world, None, r['trace'], a.tier, budget=budget)
        same = again['status'] == 'violation' and again['kind'] == r['kind']
        if not same:
            # a run that fails without being a function of its trace: the seed itself must still decide it
            again = core.isolated(world, r['seed'], None, a.tier, budget=budget)
            if again['status'] != 'violation':
                print('seed %s failed once (%s) but not when repeated: not a deterministic run' % (r['seed'], r['kind']))
                show(r)
                return 3
        print('seed %s: %s' % (r['seed'], r['kind']))
        best, tries = r['trace'], 0
        if same and a.minimise > 0:
            best, tries = core.minimise(world, r['trace'], r['kind'], a.tier, a.minimise)
        fin = core.isolated(world, None, best, a.tier, budget=budget)
        if fin['status'] != 'violation':
            fin, best = r, r['trace']
        show(fin)
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (world.ID, r['seed']))
        json.dump({'property': world.ID, 'tier': a.tier, 'seed': r['seed'], 'kind': fin['kind'], 'key': fin['key'],
                   'msg': fin['msg'], 'fingerprint': fin['fp'], 'trace': best, 'original_trace': r['trace'],
                   'minimisation_runs': tries, 'faults': fin['faults'], 'events': fin.get('events', []), 'budget': budget},
                  open(path, 'w'), indent=1)
        print('minimised with %d runs: %d -> %d workload choices, %d -> %d deviations' % (
            tries, len(r['trace']['inp']), len(best['inp']),
            sum(len(r['trace'].get(s, {})) for s in core.SPARSE), sum(len(best.get(s, {})) for s in core.SPARSE)))
        print('VIOLATION property=%s replay=%s' % (world.ID, path))
        return 1
    if harness:
        print('harness error, seed %s' % harness[0]['seed'])
        show(harness[0])
        return 3
    if not ok:
        print('no runs completed')
        return 3
    return 0


if __name__ == '__main__':
    reexec()
    sys.exit(main())
