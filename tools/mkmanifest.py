"""Writes MANIFEST.json from the property modules present."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'symx/props/%s.py' % i.lower())):
        checks.append({
            'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
            'technique': 'symbolic execution of the /repo Python source with symbolic tensor entries, goals decided by z3 (SMT), counterexamples replayed on the real code',
            'level': 'other',
            'level_note': 'Holds for every value of the entries within the stated finite set of shapes, ranks and argument forms (z3 unsat per goal); exact real/complex arithmetic instead of IEEE doubles; LAPACK and random generators through their contracts.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
