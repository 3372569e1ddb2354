#!/usr/bin/env python3
"""addfixed.py PROP [grep]: record new fix: commits of /repo under PROP"""
import json, subprocess, sys
p = '/verif/known_findings.json'
try:
    d = json.load(open(p))
except FileNotFoundError:
    d = {'findings': [], 'fixed': []}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
have = ' '.join(d['fixed'])
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or h in have:
        continue
    if len(sys.argv) > 2 and sys.argv[2] not in s:
        continue
    d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, s[4:].strip()))
    print(d['fixed'][-1])
json.dump(d, open(p, 'w'), indent=1)
