#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, levels.json, notes.json and the contract files present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
notes = json.load(open(os.path.join(HERE, 'notes.json')))
levels = json.load(open(os.path.join(HERE, 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes['not_applicable']:
        na.append(dict(property=i, reason=notes['not_applicable'][i]))
        continue
    if not os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        na.append(dict(property=i, reason='contracts not written yet'))
        continue
    checks.append(dict(
        property=i,
        quick_cmd='./check %s' % i,
        thorough_cmd='VERIF_TIER=thorough ./check %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=notes['technique'].get(i, notes['technique']['default']),
        level=levels.get(i, 'proof'),
        level_note=notes['level_note'].get(i, notes['level_note']['default'])))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=notes['notes'])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
