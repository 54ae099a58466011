#!/usr/bin/env python3-vt
"""development aid: the committed files against their schemas"""
import json, jsonschema, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    for e in jsonschema.Draft202012Validator(s).iter_errors(d):
        print(d['id'], e.message[:200])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C??.json'):
    jsonschema.validate(json.load(open(f)), e)
print('valid')
