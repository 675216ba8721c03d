"""Writes known_findings.json: findings recorded (not repaired) and repairs made, with their commits."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {   # commit subject prefix -> property whose check found it
 'to_clifford_normal_form_graph': 'P01', 'teleport_reduce no longer': 'P10', 'the bialgebra rule': 'P01', 'match_bialg_parallel': 'P01',
 'match_supplementarity': 'P01', 'match_copy': 'P01', 'apply_copy': 'P01', 'to_graph_like': 'P01', 'pi_commute_Z': 'P02',
 'match_lcomp_parallel': 'P02', 'match_pivot_gadget': 'P02', 'Scalar.add_spider_pair': 'P02', 'pauli_matcher': 'P02', 'pauli_push': 'P02',
 'remove_isolated_vertices': 'P02', 'match_w_fusion_parallel': 'P02', 'the editor does not insert': 'P02', 'GraphS resolves': 'P02',
}
EXTRA = os.path.join(H, 'tools', 'fix_props.json')
if os.path.exists(EXTRA):
    PROP.update(json.load(open(EXTRA)))
KNOWN = os.path.join(H, 'tools', 'known.json')
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    if not p:
        print('no property for', s)
        continue
    fixed.append('fixed: property=%s %s %s' % (p[0], h, s))
json.dump({'findings': json.load(open(KNOWN)) if os.path.exists(KNOWN) else [], 'fixed': fixed},
          open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed')
