"""Regenerate MANIFEST.json from tools/checks.json (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/tools/checks.json'))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
checks = []
for k in ids:
    if k not in C: continue
    c = C[k]
    checks.append({'property': k, 'quick_cmd': 'python3 tools/check.py %s quick' % k, 'thorough_cmd': 'python3 tools/check.py %s thorough' % k,
                   'technique': c.get('technique', 'contracts on the real C++ functions (mechanically extracted each run), discharged by Verus/Z3; failed obligations replayed on the compiled code'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
na = [{'property': k, 'reason': C['_na'][k]} for k in ids if k not in C]
json.dump({'version': 1, 'setup_cmd': 'mkdir -p build evidence && verus --version && clang++ --version', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks read and compile the tree as it is. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', 'not applicable:', [x['property'] for x in na])
