#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md: table of properties (props.py, properties.jsonl) and of planted bugs (seeded/*/meta.json)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
rows = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in PROPS:
        q = PROPS[i]
        rows.append('* **%s** (%s%s; executable contracts: %s) *%s.* %s' % (i, 'P' if q['level'] == 'proof' else 'B', ', units ' + ' '.join(q['units']) if q['units'] else '', q['rac'], p['title'], q['note'].replace('Bounded stand-in, nothing proved: randomized evaluation of executable contracts on the compiled real code. ', 'Bounded. ')))
    else: rows.append('* **%s** not applicable: %s' % (i, NOT_APPLICABLE[i]))
seeds = []
if os.path.isdir(V + '/seeded'):
    for d in sorted(os.listdir(V + '/seeded')):
        m = V + '/seeded/%s/meta.json' % d
        if os.path.exists(m):
            j = json.load(open(m))
            seeds.append('* `%s` (%s, %s) %s' % (d, j['property'], j.get('result', 'caught'), j['what_it_breaks']))
s = open(V + '/tools/DESIGN.in.md').read().replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
