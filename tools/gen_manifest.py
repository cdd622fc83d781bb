"""Writes MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real Python source (pyver: symbolic execution + inductive invariants + z3), contracts re-run on the real code for replay'
LEVELS = json.load(open(os.path.join(V, 'tools', 'claims.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = LEVELS.get(p['id'])
    if c is None or 'not_applicable' in c:
        na.append({'property': p['id'], 'reason': (c or {}).get('not_applicable', 'check not built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt run_check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % p['id'],
                   'technique': TECH, 'level': c['level'], 'level_note': c['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
