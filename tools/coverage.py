#!/usr/bin/env python3
"""Functions of the packages that no unit names as target (development aid)."""
import ast
import os
import re
import sys
R = '/repo'
named = set()
src = ''.join(open('/verif/contracts/' + f).read() for f in os.listdir('/verif/contracts') if f.endswith('.py'))
md = open('/verif/CONTRACTS.md').read()
for line in md.splitlines():
    m = re.match(r'  \* `([\w.]+)`: (.*)', line)
    if m:
        for f in re.findall(r'`([^`]+)`', m.group(2)):
            named.add(f)
tot = miss = 0
for pk in ('launch/launch', 'launch_xml/launch_xml', 'launch_yaml/launch_yaml', 'launch_testing/launch_testing', 'launch_pytest/launch_pytest'):
    for dp, _, fs in os.walk(os.path.join(R, pk)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            t = ast.parse(open(os.path.join(dp, f)).read())
            out = []

            def walk(n, pre):
                global tot, miss
                for c in getattr(n, 'body', []):
                    if isinstance(c, ast.ClassDef):
                        walk(c, pre + c.name + '.')
                    elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        q = pre + c.name
                        body = [x for x in c.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                        if len(body) <= 1 and (not body or isinstance(body[0], (ast.Pass,)) or (isinstance(body[0], ast.Return) and isinstance(body[0].value, (ast.Attribute, ast.Constant, type(None))))):
                            continue
                        if any(getattr(d, 'id', getattr(d, 'attr', '')) == 'overload' for d in c.decorator_list):
                            continue
                        n_ = len([x for x in ast.walk(c) if isinstance(x, ast.stmt)])
                        tot += 1
                        if q not in named:
                            miss += 1
                            out.append('%s(%d)' % (q, n_))
                    elif isinstance(c, (ast.If, ast.Try)):
                        walk(c, pre)
            walk(t, '')
            if out:
                print(os.path.relpath(os.path.join(dp, f), R), ' '.join(out))
print(tot, 'functions', miss, 'not named')
