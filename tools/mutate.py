#!/usr/bin/env python3
"""Development aid: mutate the functions a property's units target and run its check on each mutant.

usage: mutate.py ID [--max N] [--only SUBSTR] [--files f1,f2 (whole files)]
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def targets(pid):
    out = subprocess.run(['/opt/veriftools/pyvenv/bin/python', 'run_check.py', pid, '--list-targets'], cwd=ROOT,
                         capture_output=True, text=True).stdout
    return json.loads(out.strip().splitlines()[-1])


def path_of(mod):
    top = mod.split('.')[0]
    base = os.path.join(REPO, top, *mod.split('.'))
    for p in (base + '.py', os.path.join(base, '__init__.py')):
        if os.path.exists(p):
            return p


def find(tree, qual):
    node = tree
    for part in qual.split('.'):
        if part == '<locals>':
            continue
        for n in ast.walk(node):
            if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n is not node and \
                    (n.name == part or n.name == part.lstrip('_')):
                node = n
                break
        else:
            return None
    return node


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
ATTR = {'append': 'appendleft', 'appendleft': 'append', 'extend': 'append', 'update': 'setdefault', 'lower': 'upper',
        'lstrip': 'rstrip', 'rstrip': 'lstrip', 'strip': 'lstrip', 'startswith': 'endswith', 'popleft': 'pop', 'pop': 'popleft'}


def mutants(fn):
    """Yield (description, function that mutates a deep copy in place given the node path)."""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass)):
                        continue

                    def rm(m, f=f, j=j):
                        getattr(m, f)[j] = ast.copy_location(ast.Pass(), getattr(m, f)[j])
                    yield 'delete %s' % ast.unparse(s).splitlines()[0][:90], i, rm
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def neg(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield 'negate %s' % ast.unparse(n.test)[:90], i, neg
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            def cmp_(m):
                m.ops[0] = CMP[type(m.ops[0])]()
            yield 'compare %s' % ast.unparse(n)[:90], i, cmp_
        if isinstance(n, ast.BoolOp):
            def bo(m):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
            yield 'boolop %s' % ast.unparse(n)[:90], i, bo
            for j in range(len(n.values)):
                def dropv(m, j=j):
                    del m.values[j]
                    if len(m.values) == 1:
                        m.values.append(m.values[0])
                yield 'drop operand %d of %s' % (j, ast.unparse(n)[:80]), i, dropv
        if isinstance(n, ast.Constant) and isinstance(n.value, (bool, int)) or \
                (isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 14):
            def const(m):
                v = m.value
                m.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + 'x'
            yield 'constant %r' % (n.value,), i, const
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            def at(m):
                m.attr = ATTR[m.attr]
            yield 'attr %s' % ast.unparse(n)[:80], i, at
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def sw(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            yield 'swap args %s' % ast.unparse(n)[:80], i, sw
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            def rn(m):
                m.value = ast.Constant(None)
            yield 'return None instead of %s' % ast.unparse(n.value)[:80], i, rn
        if isinstance(n, (ast.For, ast.AsyncFor)):
            def br(m):
                m.body.append(ast.Break())
            yield 'break after first %s' % ast.unparse(n.target), i, br

            def rv(m):
                m.iter = ast.Call(ast.Name('reversed', ast.Load()), [ast.Call(ast.Name('list', ast.Load()), [m.iter], [])], [])
            yield 'reverse %s' % ast.unparse(n.iter)[:80], i, rv
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            def sb(m):
                m.left, m.right = m.right, m.left
            yield 'swap + %s' % ast.unparse(n)[:80], i, sb
        if isinstance(n, ast.Try) and n.handlers:
            def hd(m):
                m.handlers[0].type = ast.Name('ZeroDivisionError', ast.Load())
            yield 'handler never taken: except %s' % (ast.unparse(n.handlers[0].type) if n.handlers[0].type else ''), i, hd


def main():
    pid = sys.argv[1]
    mx = int(sys.argv[sys.argv.index('--max') + 1]) if '--max' in sys.argv else 60
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else ''
    todo = []
    for t in targets(pid):
        if only and only not in t:
            continue
        mod, qual = t.split(':')
        p = path_of(mod)
        if p is None:
            print('?', t)
            continue
        src = open(p).read()
        tree = ast.parse(src)
        fn = find(tree, qual)
        if fn is None and p.endswith('__init__.py'):
            for f in sorted(os.listdir(os.path.dirname(p))):
                if f.endswith('.py'):
                    q = os.path.join(os.path.dirname(p), f)
                    src2 = open(q).read()
                    fn = find(ast.parse(src2), qual)
                    if fn is not None:
                        p, src = q, src2
                        break
        if fn is None:
            print('? no function', t)
            continue
        lines = src.splitlines(keepends=True)
        for desc, i, mut in mutants(fn):
            todo.append((t, p, fn, desc, i, mut, lines))
    random.Random(7).shuffle(todo)
    print(pid, len(todo), 'mutants,', min(mx, len(todo)), 'run')
    todo = todo[:mx]

    def run(x):
        t, p, fn, desc, i, mut, lines = x
        d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
        try:
            g = copy.deepcopy(fn)
            mut(list(ast.walk(g))[i])
            ast.fix_missing_locations(g)
            try:
                body = ast.unparse(g)
                compile(ast.parse(body), 'x', 'exec')
            except SyntaxError:
                return None
            start = min([fn.lineno] + [dd.lineno for dd in fn.decorator_list])
            text = ''.join(lines[:start - 1]) + '\n'.join(' ' * fn.col_offset + l for l in body.splitlines()) + '\n' + \
                ''.join(lines[fn.end_lineno:])
            subprocess.run(['cp', '-a'] + [os.path.join(REPO, n) for n in os.listdir(REPO) if n != '.git'] + [d])
            q = os.path.join(d, os.path.relpath(p, REPO))
            open(q, 'w').write(text)
            try:
                compile(text, q, 'exec')
            except SyntaxError:
                return None
            env = dict(os.environ, PYVC_REPO=d, PYVC_EVIDENCE=os.path.join(d, 'ev'))
            try:
                r = subprocess.run(['./check', pid], cwd=ROOT, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return t, desc, 'TIMEOUT', ''
            o = r.stdout
            if r.returncode == 1:
                return t, desc, 'vc' if 'no-failing-input' in o else 'both' if 'failed obligation' in o else 'bounded', ''
            return t, desc, 'SURVIVED rc=%d' % r.returncode, o[-300:]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(7) as ex:
        res = [r for r in ex.map(run, todo) if r]
    from collections import Counter
    print(Counter(r[2].split()[0] for r in res))
    for t, desc, v, o in sorted(res):
        if v.startswith(('SURV', 'TIME')):
            print('  ', v, t, '|', desc, '|', ' '.join(o.split())[:200] if 'rc=0' not in v or 'undecided)' in o and '(0 undecided)' not in o else '')


main()
