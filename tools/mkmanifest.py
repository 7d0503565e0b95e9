#!/usr/bin/env python3
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import *
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py setup',
  checks=[dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}', technique=PROPS[p]['technique'], level=PROPS[p]['level'], level_note=PROPS[p]['note']) for p in ids if p in PROPS],
  not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, NOT_YET)) for p in ids if p not in PROPS],
  notes='see DESIGN.md')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
