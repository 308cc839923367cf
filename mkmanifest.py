#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py (run by hand when either changes)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in J.JOBS:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'technique': J.TECH[i], 'level': J.LEVEL.get(i, 'exploration'),
                       'level_note': J.NOTE.get(i, J.NOTE['*'])})
    else:
        na.append({'property': i, 'reason': J.NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na}
if getattr(J, 'HOOKS', None):
    m['hooks'] = J.HOOKS
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
