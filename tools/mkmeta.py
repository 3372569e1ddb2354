#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
NA = []
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root+'/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'hook_needed': None}}
        if p['obs']:
            d['anchors']['observe_at'] = p['obs']
        f.write(json.dumps(d)+'\n')
na = {x['property'] for x in NA}
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']}
                for p in P if p['id'] not in na
                and os.path.exists(root+'/checks/%s.py' % p['id'])],
     'not_applicable': NA}
json.dump(m, open(root+'/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')
