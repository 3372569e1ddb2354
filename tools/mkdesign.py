#!/opt/venv/bin/python
"""DESIGN.md from design_head.md, design_notes.py, the facets of the checks,
known_findings.json and seeded/*/meta.json"""
import glob
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT, HERE, '/repo/src']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from props import P
from design_notes import N, OPEN
from vlib import core
out = [open(HERE+'/design_head.md').read().rstrip(), '', '## Properties', '']
known = json.load(open(ROOT+'/known_findings.json'))
seeds = {}
for f in sorted(glob.glob(ROOT+'/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[-2], m))
for p in P:
    mod = importlib.import_module('checks.'+p['id'])
    out += ['### %s %s' % (p['id'], p['title']), '', N[p['id']].strip(), '',
            '| facet | quick | thorough | judged / counted as non-trivial |',
            '|---|---|---|---|']
    for f in core._FACETS:
        if f.fn.__module__ == mod.__name__:
            if f.enum is not None:
                q = t = 'all'
            else:
                q, t = core.count(f, 'quick'), core.count(f, 'thorough')
            out.append('| %s | %s | %s | %s |' % (f.name, q, t, f.rule))
    out.append('')
    n = [x for x in known['fixed'] if 'property=%s ' % p['id'] in x]
    if n:
        out += ['%d defects repaired (known_findings.json).' % len(n), '']
    for k in known['findings']:
        if k['property'] == p['id']:
            out += ['Known finding: '+k['what']+'.', '']
    if p['id'] in seeds:
        out += ['Planted, all caught: '+'; '.join(
            '`%s` (%s)' % (i, m['needs']) for i, m in seeds[p['id']])+'.', '']
out.append(open(HERE+'/design_tail.md').read().strip())
out.append(OPEN)
open(ROOT+'/DESIGN.md', 'w').write('\n'.join(out))
