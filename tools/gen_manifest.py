#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check not built yet')} for i in ids if i not in PROPS],
     'notes': 'No hooks in /repo: everything is observed through the public API, the key and value types, the allocator, and (for the '
              'disk-backed maps) the C library calls that the harness binary defines itself.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
