#!/usr/bin/env python3
"""Development aid: make seeded/<name> from a description file and confirm it.

The description (Python) defines: prop, edits=[(file, old, new)], demo (script), needs, breaks.
Confirms: demo passes on the unchanged tree and fails with the patch, build parses, the stable mypy test passes;
prints whether the check reports it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''import asyncio, atexit, os, shutil, sys, tempfile
_T = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, _T, True)
os.environ['ROS_LOG_DIR'] = os.environ['ROS_HOME'] = _T
os.environ['HOME'] = _T
'''
SH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
export DEMO_ROOT="$PWD" PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD/launch:$PWD/launch_xml:$PWD/launch_yaml:$PWD/launch_testing:$PWD/launch_pytest:$D/stub"
exec timeout 120 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(os.environ, **env), timeout=900)


def confirm(name, quiet=False):
    d = os.path.join(ROOT, 'seeded', name)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        sh('cp -a /repo/. .', w)
        a = sh('sh %s/demo.sh' % d, w)
        if a.returncode:
            return 'BAD: demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-400:]
        p = sh('git apply %s/patch.diff' % d, w)
        if p.returncode:
            return 'BAD: patch: ' + p.stderr
        b = sh('sh %s/demo.sh' % d, w)
        if not b.returncode:
            return 'BAD: demo passes with the patch'
        m = sh('cd launch && /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:launch_testing -p no:launch_pytest test/test_mypy.py', w)
        if m.returncode:
            return 'BAD: mypy: ' + m.stdout[-600:]
        c = sh('./check ' + prop, ROOT, PYVC_REPO=w, PYVC_EVIDENCE=w)
        lines = [x for x in c.stdout.splitlines() if x.startswith('VIOLATION')]
        ob = c.stdout.count('failed obligation ')
        return '%s rc=%d obl=%d %s | demo: %s' % ('CAUGHT' if c.returncode == 1 and lines else 'MISSED', c.returncode, ob,
                                           lines[0][-60:] if lines else c.stdout[-300:], (b.stdout + b.stderr).strip()[-120:])
    finally:
        shutil.rmtree(w)


def make(path):
    name = os.path.basename(path)[:-3]
    s = runpy.run_path(path)
    d = os.path.join(ROOT, 'seeded', name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/stub/ament_index_python')
    w = tempfile.mkdtemp(prefix='seed.')
    sh('cp -a /repo/. .', w)
    for f, old, new in s['edits']:
        t = open(os.path.join(w, f)).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(os.path.join(w, f), 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff', w).stdout)
    shutil.rmtree(w)
    open(d + '/demo.py', 'w').write(PRELUDE + s['demo'])
    open(d + '/demo.sh', 'w').write(SH)
    src = os.path.join(ROOT, 'stubs', 'ament_index_python')
    for n in ('__init__.py', 'packages.py'):
        open('%s/stub/ament_index_python/%s' % (d, n), 'w').write(open(os.path.join(src, n)).read().replace('PYVC_REPO', 'DEMO_ROOT'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return name


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    names = [make(a) if a.endswith('.py') else a for a in sys.argv[1:]]
    if names == ['all']:
        names = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with ThreadPoolExecutor(3) as ex:
        for n, r in zip(names, ex.map(confirm, names)):
            print(n, r)
            f = os.path.join(ROOT, 'tools', 'seed_results.json')
            d = json.load(open(f)) if os.path.exists(f) else {}
            d[n] = ('missed' if 'MISSED' in r else 'not counted' if 'CAUGHT' not in r else
                    'failed obligation only' if 'no-failing-input' in r else 'failing input') + (
                ' (and %s obligations)' % r.split('obl=')[1].split()[0] if 'obl=' in r else '')
            json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
