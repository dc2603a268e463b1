#!/opt/venv/bin/python
"""writes MANIFEST.json: every property with a module in props/ is claimed"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'props', i + '.py')) and i not in NA:
        m = importlib.import_module('props.' + i)
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python check.py %s quick' % i,
            'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % i,
            'technique': 'symbolic execution of the current source, assertions decided by z3 (bounded)',
            'level': 'other',
            'level_note': 'All values of the symbolic inputs within the stated bounds, in exact real arithmetic; '
                          'trusts the symbolic interpreter (validated against the real modules at concrete points on '
                          'every run) and z3. Outside: %s.' % (getattr(m, 'OUTSIDE', '') or 'floating-point rounding'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo; only fix: commits.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
