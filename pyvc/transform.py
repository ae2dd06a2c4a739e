"""Mechanical source transformation: every construct is kept, some are routed through the runtime.

Dropped by the extraction: nothing is removed.  Re-routed (and behaving natively while no
verification run is active): calls, list/dict/set displays, comprehensions, f-strings, `is`, `in`,
subscript loads, attribute stores, for and while loops.  Everything else is executed by CPython as
written.
"""
import ast

RT = '__vc__'


def _rt(name):
    return ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args, keywords=()):
    return ast.Call(func=_rt(name), args=list(args), keywords=list(keywords))


def _const(v):
    return ast.Constant(value=v)


class StoredNames(ast.NodeVisitor):
    """Names bound by statements of a loop body, not looking into nested scopes."""

    def __init__(self):
        self.names = []

    def _add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self._add(node.id)

    def visit_FunctionDef(self, node):
        self._add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self._add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        # only walrus targets escape a comprehension; those are visited
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self._add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, node):
        if node.name:
            self._add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self._add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def _contains(node_or_list, types, skip=(ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
    stack = list(node_or_list) if isinstance(node_or_list, list) else [node_or_list]
    while stack:
        n = stack.pop()
        if isinstance(n, types):
            return True
        if isinstance(n, skip):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Transformer(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.cls = []          # class name stack, for private-name mangling
        self.fn = []           # qualified function names
        self.counter = 0
        self.shared = []       # names written by nested functions (nonlocal), per function

    # ---- helpers
    def site(self, node, what):
        return _const('%s:%s:%s@%d' % (
            self.modname, '.'.join(self.fn) or '<module>', what, getattr(node, 'lineno', 0)))

    def mangle(self, name):
        for scope in reversed(self.cls):
            if scope is not None:
                if name.startswith('__') and not name.endswith('__') and '.' not in name:
                    c = scope.lstrip('_')
                    if c:
                        return '_%s%s' % (c, name)
                return name
        return name

    def tmp(self, what):
        self.counter += 1
        return '_vc_%s%d_' % (what, self.counter)

    # ---- scopes
    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.cls.append(node.name)
        self.fn.append(node.name)
        node.body = self.block(node.body)
        self.fn.pop()
        self.cls.pop()
        return node

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        # annotations are left alone: they are not executed semantics
        self.fn.append(node.name)
        self.shared.append(sorted({n for x in ast.walk(node) if isinstance(x, ast.Nonlocal) for n in x.names}))
        own = {n for x in node.body if isinstance(x, ast.Nonlocal) for n in x.names}
        self.shared[-1] = [n for n in self.shared[-1] if n not in own]
        node.body = self.block(node.body)
        self.shared.pop()
        self.fn.pop()
        if node.args.vararg:
            n = node.args.vararg.arg
            i = 1 if ast.get_docstring(node, clean=False) is not None else 0
            node.body.insert(i, ast.copy_location(ast.fix_missing_locations(ast.Assign(
                targets=[ast.Name(id=n, ctx=ast.Store())], value=_call('vararg', ast.Name(id=n, ctx=ast.Load())))), node.body[0]))
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        node.body = self.visit(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                'super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__'):
            if node.func.id == 'super' or not node.args:
                return node
            if node.func.id in ('eval', 'exec') and len(node.args) == 1:
                # the implicit namespaces are those of the calling frame
                node.args += [ast.Call(func=ast.Name(id=n, ctx=ast.Load()), args=[], keywords=[])
                              for n in ('globals', 'locals')]
                src = self.visit(node.args[0])
                return ast.Call(func=_rt('call'), args=[ast.Name(id=node.func.id, ctx=ast.Load()), src] + node.args[1:],
                                keywords=[])
        func = self.visit(node.func)
        args = [ast.Starred(value=_call('star', self.visit(a.value)), ctx=ast.Load()) if isinstance(a, ast.Starred)
                else self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.Call(func=_rt('call'), args=[func] + args, keywords=kws)

    def visit_Starred(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.ctx, ast.Load):
            node.value = _call('unpack', node.value)
        return node

    def _elements(self, elts):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(ast.Tuple(elts=[_const(1), self.visit(e.value)], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[_const(0), self.visit(e)], ctx=ast.Load()))
        return ast.Tuple(elts=parts, ctx=ast.Load())

    def visit_List(self, node):
        if not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        return _call('mklist', self._elements(node.elts))

    def visit_Tuple(self, node):
        if isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts):
            return _call('mktuple', self._elements(node.elts))
        return self.generic_visit(node)

    def visit_Set(self, node):
        return _call('mkset', self._elements(node.elts))

    def visit_Dict(self, node):
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[_const(1), self.visit(v), _const(None)], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[_const(0), self.visit(k), self.visit(v)], ctx=ast.Load()))
        return _call('mkdict', ast.Tuple(elts=parts, ctx=ast.Load()))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = _const('')
                if v.format_spec is not None:
                    if any(not isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return node
                    spec = _const(''.join(x.value for x in v.format_spec.values))
                parts.append(_call('fval', self.visit(v.value), _const(v.conversion), spec))
        return _call('fstr', *parts)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            op = node.ops[0]
            names = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_', ast.NotIn: 'not_in'}
            if type(op) in names:
                return _call(names[type(op)], self.visit(node.left), self.visit(node.comparators[0]))
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            return _call('getitem', node.value, node.slice)
        return node

    def visit_Slice(self, node):
        lo, hi, st = (self.visit(x) if x is not None else _const(None)
                      for x in (node.lower, node.upper, node.step))
        # kept as a slice where used for stores; visit_Subscript wraps loads
        return _call('mkslice', lo, hi, st)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('mod', node.left, node.right)
        return node

    def _simple_target(self, t):
        if isinstance(t, ast.Name):
            return [t.id], False
        if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            return [e.id for e in t.elts], True
        return None

    def _lam(self, target, body):
        names, tup = target
        inner = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names],
                               vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=body)
        if not tup:
            return inner
        a = '_vc_t_'
        return ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a)], vararg=None,
                               kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=ast.Call(func=inner, args=[ast.Starred(
                value=_call('unpack', ast.Name(id=a, ctx=ast.Load())), ctx=ast.Load())], keywords=[]))

    def _comp(self, node, what, elt):
        if _contains(node, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) or \
                any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        targets = [self._simple_target(g.target) for g in node.generators]
        if any(t is None for t in targets):
            return self.generic_visit(node)
        if self.cls and self.cls[-1] and self.fn and self.fn[-1] == self.cls[-1]:
            return self.generic_visit(node)     # class body scoping: leave native
        # innermost first
        gens = node.generators
        body = elt
        depth = len(gens)
        for i in range(depth - 1, -1, -1):
            g = gens[i]
            cond = _const(None)
            if g.ifs:
                c = self.visit(g.ifs[0]) if len(g.ifs) == 1 else ast.BoolOp(
                    op=ast.And(), values=[self.visit(x) for x in g.ifs])
                cond = self._lam(targets[i], c)
            it = self.visit(g.iter)
            last = i == depth - 1
            body = _call('gen', self.site(node, what), it, self._lam(targets[i], body), cond, _const(not last))
        return _call(what, body)

    def visit_ListComp(self, node):
        return self._comp(node, 'listcomp', self.visit(node.elt))

    def visit_SetComp(self, node):
        return self._comp(node, 'setcomp', self.visit(node.elt))

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'genexp', self.visit(node.elt))

    def visit_DictComp(self, node):
        return self._comp(node, 'dictcomp', ast.Tuple(
            elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load()))

    # ---- statements
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(value=_call(
                'setattr_', self.visit(t.value), _const(self.mangle(t.attr)), node.value)), node)
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Tuple, ast.List)):
            t = node.targets[0]
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not stars:
                node.value = _call('unpack_n', node.value, _const(len(t.elts)))
            else:
                node.value = _call('unpack_star', node.value, _const(stars[0]), _const(len(t.elts) - 1 - stars[0]))
                t.elts[stars[0]] = t.elts[stars[0]].value
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Attribute):
            t = node.target
            return ast.copy_location(ast.Expr(value=_call(
                'setattr_', self.visit(t.value), _const(self.mangle(t.attr)), node.value)), node)
        node.target = self.visit(node.target)
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Expr(value=_call(
                'augattr', self.visit(t.value), _const(self.mangle(t.attr)),
                _const(type(node.op).__name__), node.value)), node)
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[t], value=_call('aug', ast.Name(id=t.id, ctx=ast.Load()),
                                         _const(type(node.op).__name__), node.value)), node)
        node.target = self.visit(t)
        return node

    def visit_Delete(self, node):
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        names = []
        if node.type is None:
            names = ['BaseException']
        else:
            for n in ast.walk(node.type):
                if isinstance(n, ast.Name):
                    names.append(n.id)
        if 'BaseException' in names or node.type is None:
            node.body = [ast.Expr(value=_call('rethrow_engine'))] + node.body
        return node

    def visit_Try(self, node):
        node = self.generic_visit(node)
        if node.finalbody:
            # a path the engine ends must not run the program's clean-up code
            node.finalbody = [ast.Expr(value=_call('rethrow_engine'))] + node.finalbody
        return node

    def _havoc_locals(self, lv, names):
        if not names:
            return []
        body = [ast.Assign(
            targets=[ast.Name(id=n, ctx=ast.Store())],
            value=ast.Call(func=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr='local',
                                              ctx=ast.Load()), args=[_const(n)], keywords=[]))
            for n in names]
        return [ast.If(test=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr='sym',
                                          ctx=ast.Load()), body=body, orelse=[])]

    def _leave(self, lv):
        # a loop that was left by break is no longer executing
        return ast.If(test=ast.Attribute(value=ast.Name(id=lv, ctx=ast.Load()), attr='sym', ctx=ast.Load()),
                      body=[ast.Expr(value=ast.Call(func=ast.Attribute(
                          value=ast.Name(id=lv, ctx=ast.Load()), attr='leave', ctx=ast.Load()), args=[], keywords=[]))],
                      orelse=[])

    def visit_For(self, node):
        has_yield = _contains(node.body, (ast.Yield, ast.YieldFrom))
        st = StoredNames()
        for s in [node.target] + node.body:
            st.visit(s)
        for n in self.shared[-1] if self.shared else ():
            st._add(n)
        it = self.visit(node.iter)
        target = self.visit(node.target)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        if not self.fn or (self.cls and self.cls[-1] == self.fn[-1]):
            node.iter, node.target, node.body, node.orelse = it, target, body, orelse
            return node
        lv = self.tmp('L')
        names = st.names
        pre = ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())],
                         value=_call('loop', self.site(node, 'for'), it, _const(tuple(names)),
                                     _const(has_yield)))
        loop = ast.For(target=target, iter=ast.Name(id=lv, ctx=ast.Load()), body=body, orelse=orelse)
        return [ast.copy_location(x, node) for x in [pre] + self._havoc_locals(lv, names) + [loop, self._leave(lv)]]

    def visit_While(self, node):
        has_yield = _contains(node.body, (ast.Yield, ast.YieldFrom))
        st = StoredNames()
        for s in node.body:
            st.visit(s)
        st.visit(node.test)
        for n in self.shared[-1] if self.shared else ():
            st._add(n)
        test = self.visit(node.test)
        body = self.block(node.body)
        if node.orelse or not self.fn:
            node.test, node.body, node.orelse = test, body, self.block(node.orelse)
            return node
        lv = self.tmp('W')
        pre = ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())],
                         value=_call('whileloop', self.site(node, 'while'), _const(tuple(st.names)),
                                     _const(has_yield)))
        if not (isinstance(test, ast.Constant) and test.value):
            body = [ast.If(test=test, body=[ast.Pass()], orelse=[ast.Break()])] + body
        loop = ast.For(target=ast.Name(id=self.tmp('w'), ctx=ast.Store()),
                       iter=ast.Name(id=lv, ctx=ast.Load()), body=body, orelse=[])
        return [ast.copy_location(x, node) for x in [pre] + self._havoc_locals(lv, st.names) + [loop, self._leave(lv)]]


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    t = Transformer(modname)
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
