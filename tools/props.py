#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props_data.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props_data import PROPS, NA
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert p['id'] not in ids, p['id']
        ids.add(p['id'])
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'One static analyzer (analyzer/, Go, x/tools SSA) decides every claimed property from /repo\'s current source; nothing of /repo is executed. No hooks in /repo.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
