#!/usr/bin/env python3
"""Regenerates DESIGN.md from design_head.md, props.py, design_props.py, known_findings.jsonl and seeded/."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
root = os.path.dirname(here)
from props import P
from design_props import D
o = open(os.path.join(here, 'design_head.md')).read()
o += '\n## Properties and how they are decided\n'
for p in P:
    o += '\n### %s %s\n\n' % (p['id'], p['title'])
    if 'na' in p:
        o += 'Not claimed: %s.\n' % p['na']
    if p['id'] in D:
        o += D[p['id']].strip() + '\n'
o += '\n## Defects found in kpfaulkner/jxl-go\n\nRepaired (one `fix:` commit each):\n\n'
fs = [json.loads(l) for l in open(os.path.join(root, 'known_findings.jsonl')) if l.strip() and not l.startswith('#')]
for f in fs:
    if f['status'] == 'fixed':
        o += '- %s: %s (%s)\n' % (f['property'], f['what'].split(': ',1)[-1] if f['what'].startswith('fixed') else f['what'], f.get('commit','')[:10])
o += '\nRecorded, not repaired:\n\n'
for f in fs:
    if f['status'] != 'fixed':
        o += '- %s: `%s`: %s\n' % (f['property'], f['case'], f['what'])
o += '\n## Seeded changes and the checks that catch them\n\n'
res = {}
rp = os.path.join(here, 'seeded_results.json')
if os.path.exists(rp): res = json.load(open(rp))
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    n = os.path.basename(d); m = json.load(open(os.path.join(d, 'meta.json')))
    o += '- `%s` (%s): %s. Needs: %s. %s\n' % (n, m['property'], m['what_it_breaks'], m['needs'], res.get(n, 'Not run yet.'))
o += '\n' + open(os.path.join(here, 'design_tail.md')).read()
open(os.path.join(root, 'DESIGN.md'), 'w').write(o)
