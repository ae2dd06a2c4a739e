#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of the whole tree, on which every check has to stay quiet.

usage: refactor.py KIND[,KIND] DEST [--files substr,substr]      (writes a rewritten copy of /repo to DEST)
kinds: ret (return through a variable), neg (negated if/else), comp (comprehension to loop), early (no else after return),
       split (nested ifs for and), cont (continue for if in a loop), rename (local variables), lam (return through a local function),
       helper (tail of a method into a new method), ifexp (conditional expression to if), none (ast round trip only)
"""
import ast
import os
import shutil
import sys

FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(node, into_lambda=False):
    """Nodes of a function without those of nested functions and classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FN + (ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


def names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


class Base(ast.NodeTransformer):
    count = 0

    def stmts(self, body, fn):
        return body

    def visit(self, node):
        node = super().visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.stmts(b, node))
        return node


class Ret(Base):
    def stmts(self, body, fn):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                out.append(ast.Assign([ast.Name('value_', ast.Store())], s.value))
                out.append(ast.Return(ast.Name('value_', ast.Load())))
                self.count += 1
            else:
                out.append(s)
        return out


class Neg(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            self.count += 1
            t = node.test.operand if isinstance(node.test, ast.UnaryOp) and isinstance(node.test.op, ast.Not) else ast.UnaryOp(ast.Not(), node.test)
            return ast.If(t, node.orelse, node.body)
        return node


class Comp(Base):
    def stmts(self, body, fn):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 and \
                    not any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Await)) and n is not v for n in ast.walk(v)) and \
                    not v.generators[0].is_async and not isinstance(fn, (ast.ClassDef, ast.Module)):
                g = v.generators[0]
                add = ast.Expr(ast.Call(ast.Attribute(ast.Name('items_', ast.Load()), 'append', ast.Load()), [v.elt], [])) \
                    if isinstance(v, ast.ListComp) else ast.Assign([ast.Subscript(ast.Name('items_', ast.Load()), v.key, ast.Store())], v.value)
                b = [add]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                out.append(ast.Assign([ast.Name('items_', ast.Store())], ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Dict([], [])))
                ren = {n: n + '_c' for n in names(g.target)}
                loop = ast.For(g.target, g.iter, b, [])
                for part in [g.target] + b:
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id in ren:
                            n.id = ren[n.id]
                out.append(loop)
                s.value = ast.Name('items_', ast.Load())
                self.count += 1
            out.append(s)
        return out


class Early(Base):
    def stmts(self, body, fn):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest, s.orelse = s.orelse, []
                out.append(s)
                out.extend(rest)
                self.count += 1
            else:
                out.append(s)
        return out


class Split(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And):
            self.count += 1
            b = node.body
            for c in reversed(node.test.values):
                b = [ast.If(c, b, [])]
            return b[0]
        return node


class Cont(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        last = node.body[-1]
        if isinstance(last, ast.If) and not last.orelse:
            self.count += 1
            node.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], []), *last.body]
        return node


class Lam(Base):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if is_gen(node) or not isinstance(node.body[-1], ast.Return) or node.body[-1].value is None:
            return node
        v = node.body[-1].value
        if isinstance(v, (ast.Constant, ast.Name)) or any(isinstance(n, (ast.Await, ast.NamedExpr)) for n in ast.walk(v)) or \
                any(isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals') for n in ast.walk(v)):
            return node
        self.count += 1
        node.body[-1:] = [ast.FunctionDef('result_', ast.arguments([], [], None, [], [], None, []), [ast.Return(v)], [], type_params=[]),
                          ast.Return(ast.Call(ast.Name('result_', ast.Load()), [], []))]
        return node


class IfExp(Base):
    def stmts(self, body, fn):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.IfExp) and not isinstance(fn, (ast.ClassDef, ast.Module)):
                import copy
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = v.body, v.orelse
                out.append(ast.If(v.test, [a], [b]))
                self.count += 1
            else:
                out.append(s)
        return out


class Rename(Base):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        inner = set()
        for n in ast.walk(node):
            if n is not node and isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
                inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
                if not isinstance(n, ast.Lambda):
                    inner.add(n.name)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                inner |= set(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                inner |= {(a.asname or a.name).split('.')[0] for a in n.names}
            if isinstance(n, ast.ExceptHandler) and n.name:
                inner.add(n.name)
            if isinstance(n, ast.Name) and n.id == 'locals':
                return node
        local = {n.id for n in own(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - inner
        for n in own(node):
            if isinstance(n, ast.Name) and n.id in local:
                n.id = n.id + '_renamed'
                self.count += 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


class Helper(Base):
    """The last statements of a method become a method of their own."""

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        out = []
        for f in node.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or is_gen(f) or len(f.body) < 4 or not f.args.args or f.args.args[0].arg != 'self' \
                    or f.name in ('__init__', '__new__'):
                continue
            k = len(f.body) // 2 + 1
            if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant):
                k = max(k, 2)
            tail = f.body[k:]
            mod = ast.Module(tail, [])
            if any(isinstance(n, (ast.Nonlocal, ast.Global)) or isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals') for n in ast.walk(f)):
                continue
            bound = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} | {
                n.id for s in f.body[:k] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {
                n.name for s in f.body[:k] for n in ast.walk(s) if isinstance(n, FN)} | {
                (a.asname or a.name).split('.')[0] for s in f.body[:k] for n in ast.walk(s) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            # only what is certainly bound at that point
            certain = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
            for s in f.body[:k]:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and (getattr(s, 'value', None) is not None):
                    certain |= {n.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for n in ast.walk(t) if isinstance(n, ast.Name)}
                elif isinstance(s, FN):
                    certain.add(s.name)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    certain |= {(a.asname or a.name).split('.')[0] for a in s.names}
            used = (names(mod) & bound) - {'self'}
            if used - certain:
                continue
            name = '_' + f.name.strip('_') + '_rest'
            args = sorted(used)
            out.append(ast.FunctionDef(name, ast.arguments([], [ast.arg('self')] + [ast.arg(a) for a in args], None, [], [], None, []), tail, [], type_params=[]))
            f.body[k:] = [ast.Return(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
            self.count += 1
        node.body = out
        return node


KINDS = dict(ret=Ret, neg=Neg, comp=Comp, early=Early, split=Split, cont=Cont, lam=Lam, rename=Rename, helper=Helper, ifexp=IfExp, none=Base)


def main():
    kinds, dest = sys.argv[1].split(','), sys.argv[2]
    only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree('/repo', dest, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.egg-info'))
    total = 0
    for pkg in ('launch', 'launch_xml', 'launch_yaml', 'launch_testing', 'launch_pytest'):
        for dp, dn, fn in os.walk(os.path.join(dest, pkg, pkg)):
            for f in fn:
                p = os.path.join(dp, f)
                if not f.endswith('.py') or only and not any(o in p for o in only):
                    continue
                tree = ast.parse(open(p).read())
                for k in kinds:
                    t = KINDS[k]()
                    tree = t.visit(tree)
                    total += t.count
                ast.fix_missing_locations(tree)
                with open(p, 'w') as out:
                    out.write(ast.unparse(tree) + '\n')
                compile(open(p).read(), p, 'exec')
    print(dest, total, 'rewrites')


if __name__ == '__main__':
    main()
