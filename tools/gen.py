#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NA
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')
checks = []
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'All checks are one static analyser (kcheck/, Go, built from the committed source) that type-checks /repo, builds SSA and interprets it abstractly; nothing of /repo is executed. See DESIGN.md.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
