#!/usr/bin/env python3
"""CONTRACTS.md, and the tables of DESIGN.md that are data, from contracts/, known_findings.json and seeded/."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1:] == ['--inner']:
    sys.path.insert(0, HERE)
    import glob
    import importlib
    from pyvc import loader
    loader.install()
    for f in sorted(glob.glob(HERE + '/contracts/c[0-9]*.py')):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    from pyvc import api
    print(json.dumps([(u.prop, u.name, (u.fn.__doc__ or '').strip().split('\n')[0], u.targets, u.assumes) for u in api.UNITS]))
    sys.exit()
r = subprocess.run(['python3-vt', __file__, '--inner'], capture_output=True, text=True)
units = json.loads(r.stdout.strip().splitlines()[-1])
o = ['# Units, functions under contract, assumptions', '', 'Generated by tools/gen_contracts.py.', '']
for p in [json.loads(x) for x in open(HERE + '/properties.jsonl')]:
    mine = [u for u in units if u[0] == p['id']]
    o += ['## %s %s' % (p['id'], p['title']), '']
    for _, n, doc, ts, asm in mine:
        o.append('* **%s**%s' % (n, ': ' + doc if doc else ''))
        by = {}
        for t in ts:
            m, _, f = t.partition(':')
            by.setdefault(m, []).append(f)
        for m, fs in by.items():
            o.append('  * `%s`: %s' % (m, ', '.join('`%s`' % f for f in fs)))
        for x in asm:
            o.append('  * assumes: %s' % x)
    o.append('')
open(HERE + '/CONTRACTS.md', 'w').write('\n'.join(o))
fd = json.load(open(HERE + '/known_findings.json'))['findings']
tab = ['| property | commit | what failed |', '|---|---|---|'] + \
    ['| %s | %s | %s |' % (f['property'], f.get('commit', '**open** (' + f.get('not_repaired', '') + ')'), f['what'].replace('|', '\\|')) for f in fd]
res = {}
rp = HERE + '/tools/seed_results.json'
if os.path.exists(rp):
    res = json.load(open(rp))
st = ['| seed | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
    st.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|'), res.get(s, '?')))
d = open(HERE + '/DESIGN.md').read()
for name, t in (('FINDINGS', tab), ('SEEDS', st)):
    blk = '<!-- %s -->\n%s\n<!-- /%s -->' % (name, '\n'.join(t), name)
    if '@@%s@@' % name in d:
        d = d.replace('@@%s@@' % name, blk)
    else:
        d = re.sub('<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda _: blk, d, flags=re.S)
open(HERE + '/DESIGN.md', 'w').write(d)
print(len(units), 'units', len(fd), 'findings', len(st) - 2, 'seeds')
