#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and lib/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'tools')]
from properties import PROPERTIES as TEXTS, NOT_APPLICABLE
from registry import PROPERTIES
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in TEXTS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for p in TEXTS:
    r = PROPERTIES.get(p['id'])
    if not r:
        assert p['id'] in NOT_APPLICABLE, p['id']
        continue
    c = {'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'technique': r['technique'], 'level': 'other', 'level_note': r['note']}
    if r.get('thorough'):
        c['thorough_cmd'] = 'python3 check.py %s --tier thorough' % p['id']
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'python3 check.py --stamp', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'All checks are static analyses of the working tree of /repo; nothing of it is executed. No hooks are needed.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(TEXTS), 'properties,', len(checks), 'claimed,', len(NOT_APPLICABLE), 'not applicable')
