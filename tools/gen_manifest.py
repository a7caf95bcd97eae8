#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for ln in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(ln)
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in LEVEL:
        l = LEVEL[i]
        checks.append(dict(property=i, quick_cmd='python3 %s quick' % f, thorough_cmd='python3 %s thorough' % f, technique=l[1],
                           level=l[0], level_note=l[2]))
    else:
        na.append(dict(property=i, reason=LEVEL.get('NA', {}).get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
