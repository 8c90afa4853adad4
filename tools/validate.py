#!/usr/bin/env -S python3-vt
import json, glob, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/root/.vp/'
ps = json.load(open(R+'PROPERTIES.schema.json')); ms = json.load(open(R+'MANIFEST.schema.json')); es = json.load(open(R+'EVIDENCE.schema.json'))
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l), ps)
jsonschema.validate(json.load(open(V+'/MANIFEST.json')), ms)
for f in glob.glob(V+'/evidence/C[0-9][0-9].json'): jsonschema.validate(json.load(open(f)), es)
print('valid')
