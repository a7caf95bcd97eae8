#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_*.md and the per-property texts"""
import json, os, sys
d = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, d)
from design_body import B
lv = json.load(open(d + '/levels.json'))
na = {x['id']: x['reason'] for x in json.load(open(d + '/../MANIFEST.json')).get('not_applicable', []) if 'id' in x} if os.path.exists(d + '/../MANIFEST.json') else {}
out = [open(d + '/design_head.md').read()]
for l in open(d + '/../properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in lv:
        out.append('*Level:* %s. *Decided by:* %s.\n' % (lv[i][0], lv[i][1]))
    else:
        out.append('*Not claimed.* See MANIFEST.json.\n')
    if B.get(i):
        out.append(B[i].strip() + '\n')
    if i in lv:
        out.append('*Bounds and assumptions:* %s\n' % lv[i][2])
out.append(open(d + '/design_tail.md').read())
open(d + '/../DESIGN.md', 'w').write('\n'.join(out))
