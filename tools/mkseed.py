#!/usr/bin/env python3
"""mkseed.py SPEC.py...: build and confirm planted bugs under /verif/seeded.

SPEC.py defines SEEDS = [dict(id, prop, file, edits=[(old,new)..], needs,
breaks, demo)].  Works in a scratch copy of /repo; runs demo both ways, the
stable tests are run by vcheck."""
import json
import os
import runpy
import shutil
import subprocess
import sys

W = '/tmp/seedwork'
SH = '''#!/bin/bash
# cwd is the repository; exit 0 = behaves
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
'''


def run(demo):
    return subprocess.run(['bash', demo], cwd=W, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)['SEEDS']:
        if os.path.isdir(W):
            shutil.rmtree(W)
        subprocess.check_call(['git', 'clone', '-q', '/repo', W])
        d = '/verif/seeded/'+s['id']
        os.makedirs(d, exist_ok=True)
        with open(d+'/demo.sh', 'w') as f:
            f.write(SH)
        with open(d+'/demo.py', 'w') as f:
            f.write(HEAD+s['demo'].lstrip('\n'))
        r0 = run(d+'/demo.sh')
        ed = s['edits']
        for fn, old, new in [(e if len(e) == 3 else (s['file'], *e))
                             for e in ed]:
            p = os.path.join(W, 'src/cssrlib', fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT matches', t.count(old), 'times:', old)
                sys.exit(1)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
        with open(d+'/patch.diff', 'w') as f:
            f.write(diff)
        r1 = run(d+'/demo.sh')
        json.dump({'property': s['prop'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d+'/meta.json', 'w'), indent=1)
        ok = r0.returncode == 0 and r1.returncode != 0
        print(s['id'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode)
        if not ok:
            print(r0.stdout[-1500:], '----', r1.stdout[-1500:])
shutil.rmtree(W, ignore_errors=True)
