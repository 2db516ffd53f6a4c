#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks = []
for i in ids:
    if i not in props.PROPS: NA[i] = NA.get(i, 'not built yet'); continue
    p = props.PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: allocation and synchronization are interposed at link time. Checks compile the library from /repo themselves.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not claimed')
