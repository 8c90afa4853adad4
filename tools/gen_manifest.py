#!/usr/bin/env python3
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
import gen_properties
from pyvc.loader import contract_literals

NA = {}
checks = []
claimed = set()
for f in sorted(glob.glob(V + '/contracts/c[0-9]*.py')):
    l = contract_literals(f)
    if l.get('HOLD'):
        continue
    cmd = f'python3-vt pyvc/run.py contracts/{os.path.basename(f)}'
    claimed.add(l['PROP'])
    checks.append(dict(
        property=l['PROP'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
        technique=l.get('TECHNIQUE', 'contracts on the real functions, discharged deductively '
                        '(pyvc verification conditions, z3/cvc5)'),
        level=l.get('LEVEL', 'proof'), level_note=l['NOTE']))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'its check is not built yet'))
      for p in gen_properties.P if p['id'] not in claimed]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && cvc5 --version >/dev/null && '
         'cbmc --version >/dev/null && gcc --version >/dev/null', checks=checks, not_applicable=na)
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
gen = gen_properties.P
with open(V + '/properties.jsonl', 'w') as f:
    for d in gen:
        f.write(json.dumps(d) + '\n')
print(len(checks), 'checks;', len(na), 'not claimed')
