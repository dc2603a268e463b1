#!/opt/venv/bin/python
"""DESIGN.md = doc/DESIGN.in + per-property notes from props/*.py + known_findings.json + doc/seeded.json"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
t = open(V + '/doc/DESIGN.in').read()
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man.get('not_applicable', [])}
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not claimed: %s\n' % na[i])
        continue
    m = importlib.import_module('props.' + i)
    out.append(getattr(m, 'HOW', m.__doc__).strip() + '\n')
    q = [o for o in m.OBLIGATIONS if o.tier == 'quick']
    out.append('%d obligations quick, %d thorough: %s.\n' % (
        len(q), len(m.OBLIGATIONS), ', '.join(sorted({o.fn.__name__ for o in m.OBLIGATIONS}))))
    if getattr(m, 'ASSUMPTIONS', None):
        a = m.ASSUMPTIONS
        out.append('Assumptions: %s\n' % (a if isinstance(a, str) else '; '.join(a)))
    if getattr(m, 'OUTSIDE', ''):
        out.append('Outside: %s.\n' % m.OUTSIDE.rstrip('.'))
f = []
for x in json.load(open(V + '/known_findings.json')):
    f.append('* %s (%s)%s: %s' % (x['property'], x['status'], ' ' + x['commit'] if x.get('commit') else '', x['what']))
s = []
sp = V + '/doc/seeded.json'
if os.path.exists(sp):
    s.append('| bug | property | caught by | what it breaks |\n|---|---|---|---|')
    for b, d in sorted(json.load(open(sp)).items()):
        s.append('| %s | %s | %s | %s |' % (b, d['property'], ', '.join(d['caught']) or '(missed)', d['what'].replace('|', '/')))
t = t.replace('PERPROP', '\n'.join(out)).replace('FINDINGS', '\n'.join(f) + '\n').replace('SEEDED', '\n'.join(s) + '\n')
open(V + '/DESIGN.md', 'w').write(t)
