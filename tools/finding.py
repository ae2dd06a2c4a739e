#!/usr/bin/env python3
"""tools/finding.py ID KEY COMMIT WHAT: record a repaired defect."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
i, key, commit, what = sys.argv[1:5]
L = d if isinstance(d, list) else d['findings']
L.append(dict(property=i, key=key, status='fixed', commit=commit, what=what, record='fixed: property=%s %s %s' % (i, commit, what)))
json.dump(d, open(p, 'w'), indent=1)
