#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'technique.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'gpv', 'checks', i.lower() + '.py')) and i in TECH:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           technique=TECH[i][0], level='exploration', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 check.py --selftest',
               checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
