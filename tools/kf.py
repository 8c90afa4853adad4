#!/usr/bin/env python3
"""kf.py PROP STATUS COMMIT|- WHAT [unit check]: add an entry to known_findings.json"""
import json, os, sys
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known_findings.json'
d = json.load(open(p))
prop, status, commit, what = sys.argv[1:5]
e = dict(property=prop, status=status, what=what)
if commit != '-':
    e['commit'] = commit
    e['what'] = f'fixed: property={prop} {commit} {what}'
if len(sys.argv) > 5:
    e['unit'], e['check'] = sys.argv[5:7]
d['findings'].append(e)
json.dump(d, open(p, 'w'), indent=1)
