#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS
from checks import CHECKS
root = os.path.dirname(here)
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = list(p['observe'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in CHECKS:
        c = CHECKS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique='model checking: ' + p['technique'], level=c['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='run.py builds the harness of a property from /repo\'s working tree with clang++ (content-addressed object cache in .cache), explores on 8 shards, '
               'replays each violation before reporting it, and writes the evidence file. No hooks are compiled into /repo.')
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties,', len(checks), 'checks')
