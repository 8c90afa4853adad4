#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (section 2 onward) from the contract files, findings and seeded bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/tools')
import gen_properties
from pyvc.loader import contract_literals
d = open(V + '/DESIGN.md').read().split('<!-- generated -->')[0].rstrip() + '\n\n<!-- generated -->\n'
lits = {}
for f in sorted(glob.glob(V + '/contracts/c[0-9]*.py')):
    l = contract_literals(f)
    lits[l['PROP']] = (os.path.basename(f), l)
plan = json.load(open(V + '/tools/plan.json'))
d += '## 2. Property by property\n\n'
for p in gen_properties.P:
    d += f"### {p['id']} {p['title']}\n\n"
    if p['id'] in lits:
        f, l = lits[p['id']]
        d += f"`contracts/{f}`. {l['NOTE']}"
        if l.get('EXPLAIN'): d += ' ' + l['EXPLAIN']
        for a in l.get('ASSUME', []): d += f"\n* assumed: {a}"
        for a in l.get('TRUSTED', []): d += f"\n* trusted: {a}"
        ev = f"{V}/evidence/{p['id']}.json"
        d += '\n\n'
    else:
        d += 'Planned: ' + plan.get(p['id'], '') + '\n\n'
d += '## 3. Defects found in bup\n\nRepaired (one `fix:` commit each), or recorded in `known_findings.json`:\n\n'
for k in json.load(open(V + '/known_findings.json'))['findings']:
    d += f"* {k['property']} {k['status']} {k.get('commit') or ''}: {k['what']}\n"
d += '\n## 4. Planted bugs\n\n| bug | property | needs | check |\n|---|---|---|---|\n'
res = json.load(open(V + '/tools/seeded_results.json')) if os.path.exists(V + '/tools/seeded_results.json') else {}
for s in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(s)); i = s.split('/')[-2]
    d += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run yet')} |\n"
open(V + '/DESIGN.md', 'w').write(d)
