#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.jsonl from the fix: commits in /repo."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(os.path.dirname(here), 'known_findings.jsonl')
keep = []
if os.path.exists(path):
    keep = [l for l in open(path) if json.loads(l).get('status') != 'fixed']
table = [l.rstrip('\n').split(' ', 1) for l in open(os.path.join(here, 'fixed.txt')) if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    what = s[5:]
    m = [p for p, t in table if what.startswith(t)]
    if not m:
        print('UNMAPPED', l)
        continue
    out.append(json.dumps({'property': m[0], 'status': 'fixed', 'commit': h, 'what': what,
                           'line': 'fixed: property=%s %s %s' % (m[0], h, what)}) + '\n')
open(path, 'w').writelines(keep + out)
print(len(out), 'fixed', len(keep), 'findings')
