#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({
            'property': p['id'],
            'quick_cmd': './run.sh %s quick' % p['id'],
            'thorough_cmd': './run.sh %s thorough' % p['id'],
            'technique': p['tech'], 'level': p.get('level', 'model_checking'), 'level_note': p['note'],
        })
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every check drives the real decoder through its exported API; commits in /repo are repairs (fix:) only.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
for p in P:
    assert len(p['title']) <= 80, p['id']
