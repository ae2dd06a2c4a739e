"""Runtime behind the transformed sources.  Inactive: plain Python.  Active: models and contracts."""
import collections
import collections.abc
import functools
import logging
import operator
import sys
import types
import warnings

import z3

from . import core, values as V
from .core import EngineExc, SymLoop, Unsupported, log_write, track
from .values import (BoolK, IntK, ObjProxy, StrK, SymAny, SymBool, SymNum, SymStr, VDict, VIter, VList,
                     lift, neg)

PROXIES = (SymBool, SymNum, SymStr, SymAny)


def is_proxy(v):
    t = type(v)
    return t in PROXIES or t is StarArg or issubclass(t, ObjProxy) or t is VIter or t is Gen or t is V.OpaqueIter or t is V.ItemsOf or \
        (t is VList and v.items is None) or (t is VDict and v.items_ is None) or (t is V.VSet and v.items is None)


def deep_proxy(v, depth=3):
    if is_proxy(v):
        return True
    t = type(v)
    if depth:
        if t is VList:
            return any(deep_proxy(x, depth - 1) for x in v.items)
        if t is VDict:
            return any(deep_proxy(x, depth - 1) for kv in v.items_.items() for x in kv)
        if t in (list, tuple, set, frozenset, V.VSet):
            return any(deep_proxy(x, depth - 1) for x in v)
        if t is dict:
            return any(deep_proxy(x, depth - 1) for kv in v.items() for x in kv)
    return False


def native(v):
    """Python containers for fully concrete containers, handed to unmodelled library code."""
    t = type(v)
    if t is VList:
        return (tuple if v.cls is tuple else list)(native(x) for x in v.items)
    if t is VDict:
        return {k: native(x) for k, x in v.items_.items()}
    if t is tuple:
        return tuple(native(x) for x in v)
    if t is V.VSet:
        return set(v.items)
    return v


# ---------------------------------------------------------------- iteration
def unroll_limit():
    return 40


def own_iter(it):
    if core.E is None or type(it) in (VList, VDict) or hasattr(type(it), 'vc_iter'):
        return None
    f = getattr(type(it), '__iter__', None)
    return f if type(f) is types.FunctionType and in_scope(f.__code__) else None


def as_iter(it):
    """('c', iterator) or ('s', length term, at, source)."""
    if isinstance(it, SymAny):
        it = it.resolve()
    if type(it) is VList:
        if it.items is not None:
            return ('c', iter(it))
        return ('s', z3.Length(it.term), lambda k, it=it, t=it.term: it.kind.wrap(t[k]), it)
    if type(it) is VIter:
        if it.used == 'up':
            return ('c', iter(()))
        if it.used:
            raise Unsupported('use of an iterator after some of its elements')
        if it.once is not None:
            it.used = 'partly'
        return ('s', it.n, it.at_, it.src)
    if type(it) is VDict:
        if it.items_ is not None:
            return ('c', iter(it))
        return as_iter(it.keys())
    if type(it) in (SymStr, SymNum, SymBool):
        if type(it) is SymStr:
            raise Unsupported('iteration over a symbolic string')
        raise TypeError('object is not iterable')
    if hasattr(type(it), 'vc_iter'):
        return as_iter(it.vc_iter())
    if type(it) is Gen:
        return as_iter(listcomp(it)) if it.is_symbolic() else ('c', iter(it))
    f = own_iter(it)
    if f is not None:
        r = call(f, it)
        return as_iter(r) if type(r) in (VIter, Gen) else ('c', iter(r))
    return ('c', iter(it))


class NativeLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return self.it

    def local(self, name):
        raise RuntimeError


def loop(site, it, names, has_yield):
    if core.E is None:
        return NativeLoop(iter(it))
    r = as_iter(it)
    if r[0] == 'c':
        return NativeLoop(r[1])
    if has_yield:
        raise Unsupported('yield inside a cut loop')
    seq_hook(r[3])
    lp = SymLoop(site, sys._getframe(1), names, r[1], r[2])
    lp.source = r[3]
    if type(it) is VIter and it.once is not None and lp.mode == 1:
        it.used = 'up'
    return lp


class WhileNative:
    sym = False

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        if core.E is not None and self.n > 200:
            raise Unsupported('while loop without a cut does not terminate symbolically')
        return self.n

    def local(self, name):
        raise RuntimeError


def whileloop(site, names, has_yield):
    if core.E is None:
        return WhileNative()
    cw = core.E.cut_while
    if cw is None or not cw(site):
        return WhileNative()
    if has_yield:
        raise Unsupported('yield inside a cut loop')
    return SymLoop(site, sys._getframe(1), names, None, None, is_while=True)


class Gen:
    """A comprehension / generator expression."""

    def __init__(self, site, it, fn, cond, nested):
        self.site, self.it, self.fn, self.cond, self.nested = site, it, fn, cond, nested

    def is_symbolic(self):
        it = self.it
        if isinstance(it, SymAny):
            it = self.it = it.resolve()
        return (type(it) is VList and it.items is None) or type(it) is VIter or \
            (type(it) is VDict and it.items_ is None) or \
            (isinstance(it, ObjProxy) and hasattr(type(it), 'vc_iter')) or \
            (type(it) is Gen and it.is_symbolic())

    def __iter__(self):
        for x in (as_iter(self.it)[1] if core.E is not None else iter(self.it)):
            if self.cond is None or self.cond(x):
                if self.nested:
                    yield from iter(self.fn(x))
                else:
                    yield self.fn(x)

    def each(self, body):
        """Run body(value) for each value; a cut loop if the source is symbolic."""
        it = as_iter(self.it)
        lp = NativeLoop(it[1]) if it[0] == 'c' else _inner_loop(self.site, it)
        for x in lp:
            if self.cond is None or self.cond(x):
                v = self.fn(x)
                if self.nested:
                    if v.each(body):
                        return True
                elif body(v):
                    return True
        return False


def seq_hook(src):
    """Let the contract introduce spec functions over the sequence about to be iterated."""
    p = core.E.path
    if p.seq_hooks and type(src) is VList and src.items is None:
        for h in p.seq_hooks:
            k = (id(h), src.term.get_id())
            if k not in p.hooked:
                p.hooked[k] = src.term
                h(VList(kind=src.kind, term=src.term))


def _inner_loop(site, it):
    seq_hook(it[3])
    lp = SymLoop(site, _Empty, (), it[1], it[2])
    lp.source = it[3]
    return lp


class _Empty:
    f_locals = {}


def gen(site, it, fn, cond, nested):
    if core.E is None:
        it = iter(it)          # evaluated eagerly, as Python does
    return Gen(site, it, fn, cond, nested)


def genexp(g):
    return g if core.E is not None else iter(g)


def listcomp(g):
    if core.E is None:
        return list(g)
    acc = VList()
    g.each(lambda v: acc.append(v))
    return acc


def setcomp(g):
    if core.E is None:
        return set(g)
    return m_set(g)


def dictcomp(g):
    if core.E is None:
        return dict(iter(g))
    acc = VDict()

    def put(kv):
        acc[kv[0]] = kv[1]
    g.each(put)
    return acc


# ---------------------------------------------------------------- displays
def mklist(parts):
    if core.E is None:
        out = []
        for star, v in parts:
            if star:
                out.extend(v)
            else:
                out.append(v)
        return out
    r = VList()
    for star, v in parts:
        if star:
            r.extend(to_vlist(v))
        else:
            r.append(v)
    return r


def mktuple(parts):
    if core.E is None:
        return tuple(mklist(parts))
    r = mklist(parts)
    if r.items is not None:
        return tuple(r.items)
    r.cls, r.frozen = tuple, True
    return r


def mkset(parts):
    if core.E is None:
        return set(mklist(parts))
    return m_set(mklist(parts))


def mkdict(parts):
    if core.E is None:
        out = {}
        for star, k, v in parts:
            if star:
                out.update(k)
            else:
                out[k] = v
        return out
    d = VDict()
    for star, k, v in parts:
        if star:
            d.update(k)
        else:
            d[k] = v
    return d


def unpack(v):
    if core.E is None:
        return v
    if isinstance(v, SymAny):
        v = v.resolve()
    if type(v) is VList:
        if v.items is None:
            raise Unsupported('unpacking a symbolic sequence')
        return tuple(v.items)
    return v


class StarArg:
    """A symbolic sequence passed with * to a call."""

    def __init__(self, seq):
        self.seq = seq

    def __getattr__(self, n):
        raise Unsupported('a symbolic number of positional arguments')


def star(v):
    """f(*v)"""
    if core.E is None:
        return v
    if isinstance(v, SymAny):
        v = v.resolve()
    if type(v) in (Gen, VIter):
        v = to_vlist(v)
    if type(v) is VList and v.items is None:
        return (StarArg(v.vc_copy(tuple)),)
    return unpack(v)


def vararg(t):
    """The *args parameter of a function."""
    if core.E is None or not any(type(x) is StarArg for x in t):
        return t
    if len(t) == 1:
        return t[0].seq
    return mktuple([(type(x) is StarArg, x.seq if type(x) is StarArg else x) for x in t])


def unpack_n(v, n):
    if core.E is None:
        return v
    if isinstance(v, SymAny):
        v = v.resolve()
    if type(v) is VList and v.items is None:
        if not core.E.branch(z3.Length(v.term) == n):
            raise ValueError('unpacking: wrong number of values')
        return tuple(v.kind.wrap(v.term[z3.IntVal(i)]) for i in range(n))
    return v


def unpack_star(v, before, after):
    """a, *b, c = v: the values of the targets, the starred one as a list."""
    if core.E is not None and isinstance(v, SymAny):
        v = v.resolve()
    if core.E is not None and type(v) is VList and v.items is None:
        if not core.E.branch(z3.Length(v.term) >= before + after):
            raise ValueError('not enough values to unpack')
        mid = v.vc_getitem(slice(before, -after if after else None)).vc_copy(list)
        n = z3.Length(v.term)
        return tuple(v.kind.wrap(v.term[z3.IntVal(i)]) for i in range(before)) + (mid,) + \
            tuple(v.kind.wrap(v.term[n - after + i]) for i in range(after))
    r = list(v)
    if len(r) < before + after:
        raise ValueError('not enough values to unpack (expected at least %d, got %d)' % (before + after, len(r)))
    e = len(r) - after
    mid = r[before:e]
    return tuple(r[:before]) + (VList(mid) if core.E is not None else mid,) + tuple(r[e:])


def to_vlist(v):
    if isinstance(v, SymAny):
        v = v.resolve()
    if type(v) is VList:
        return v
    if type(v) is Gen:
        return listcomp(v)
    if type(v) is VDict:
        return to_vlist(v.keys())
    if type(v) is VIter:
        if v.once is not None and v.used is None:
            v.used = 'up'
            return v.once
        return listcomp(Gen('list', v, lambda x: x, None, False))
    if type(v) in (SymStr, SymNum, SymBool):
        raise Unsupported('sequence from a symbolic scalar')
    if hasattr(type(v), 'vc_iter'):
        return to_vlist(v.vc_iter())
    f = own_iter(v)
    if f is not None:
        r = call(f, v)
        return to_vlist(r) if type(r) in (VIter, Gen) else VList(list(r))
    return VList(list(v))


# ---------------------------------------------------------------- f-strings, operators
def fval(v, conv, spec):
    if core.E is None or not deep_proxy(v):
        if core.E is not None:
            v = native(v)
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        return format(v, spec)
    if conv in (-1, 115) and spec == '':
        if type(v) is SymStr:
            return v
        if type(v) is SymNum and v.term.sort() == V.IntS:
            return m_str(v)
    return fmt_of('f', v)


def fmt_of(what, *vs):
    return StrK.wrap(core.cur().fresh('fmt', V.StrS))


def fstr(*parts):
    if core.E is None:
        return ''.join(parts)
    r = ''
    for p in parts:
        r = r + p
    return r


def mod(a, b):
    if core.E is not None and isinstance(a, str) and deep_proxy(b):
        return fmt_of('%')
    return a % b


def mkslice(a, b, c):
    return slice(a, b, c)


def getitem(o, k):
    if core.E is None:
        return o[k]
    if isinstance(o, SymAny):
        o = o.resolve()
    if hasattr(type(o), 'vc_getitem'):
        return o.vc_getitem(k)
    if type(o) in (dict, collections.OrderedDict, collections.defaultdict) and is_proxy(k):
        for x in list(o):
            if bool(x == k):
                return o[x]
        if type(o) is collections.defaultdict:
            raise Unsupported('defaultdict with a symbolic key')
        raise KeyError('<symbolic key>')
    if type(o) in (list, tuple) and is_proxy(k):
        return VList(o, cls=type(o)).vc_getitem(k)
    if type(o) is str and (is_proxy(k) or (isinstance(k, slice) and any(map(is_proxy, (k.start, k.stop))))):
        return SymStr(z3.StringVal(o)).vc_getitem(k)
    return o[k]


def is_(a, b):
    if core.E is None:
        return a is b
    if a is b:
        return True
    if type(a) is SymAny or type(b) is SymAny:
        if a is None or b is None:
            return BoolK.wrap(V.AnyS.is_none((b if a is None else a).term))
        return BoolK.wrap(V.AnyK.unwrap(a) == V.AnyK.unwrap(b))
    if isinstance(a, ObjProxy) or isinstance(b, ObjProxy):
        if a is None or b is None:
            return False
        if isinstance(a, (str, bool, int, float)) or isinstance(b, (str, bool, int, float)):
            return False
        return BoolK.wrap(V.ref_of(a) == V.ref_of(b))
    if type(a) is SymBool or type(b) is SymBool:
        if isinstance(a, bool) and isinstance(b, bool):
            return BoolK.wrap(lift(a) == lift(b))
        return False
    return a is b


def is_not(a, b):
    if core.E is None:
        return a is not b
    return neg(is_(a, b))


def in_(a, b):
    if core.E is None:
        return a in b
    if isinstance(b, SymAny):
        b = b.resolve()
    if hasattr(type(b), 'vc_contains'):
        return b.vc_contains(a)
    if type(b) is str and type(a) is SymStr:
        return BoolK.wrap(z3.Contains(z3.StringVal(b), a.term))
    if type(b) in (dict, set, frozenset, list, tuple) and is_proxy(a):
        r = z3.BoolVal(False)
        for x in b:
            r = z3.Or(r, lift(x == a))
        return BoolK.wrap(r)
    if type(b) in (Gen, VIter):
        return in_(a, to_vlist(b))
    return a in b


def not_in(a, b):
    if core.E is None:
        return a not in b
    return neg(in_(a, b))


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'BitOr': operator.ior,
        'BitAnd': operator.iand, 'Mod': operator.imod, 'FloorDiv': operator.ifloordiv,
        'Div': operator.itruediv, 'BitXor': operator.ixor, 'LShift': operator.ilshift,
        'RShift': operator.irshift, 'Pow': operator.ipow}


def aug(a, op, b):
    return _AUG[op](a, b)


def augattr(o, name, op, b):
    setattr_(o, name, _AUG[op](getattr(o, name), b))


def setattr_(o, name, v):
    if core.E is not None and not isinstance(o, type):
        if core.E.path.loops and V.core.serial_of(o) is None:
            raise Unsupported('write to an untracked %s in a cut loop' % type(o).__name__)
        if core.E.path.loops:
            k = None
            try:
                k = V.kind_of(v)
            except Unsupported:
                pass
            log_write(o, name, k if not isinstance(v, (VList, VDict)) else None)
    setattr(o, name, v)


def rethrow_engine():
    exc = sys.exc_info()[1]
    if isinstance(exc, EngineExc):
        raise exc


# ---------------------------------------------------------------- calls
REPO_PREFIXES = ['/repo/', '/verif/']


def in_scope(code):
    return any(code.co_filename.startswith(p) for p in REPO_PREFIXES)


def call(f, /, *a, **k):
    e = core.E
    if e is None:
        return f(*a, **k)
    if isinstance(f, SymAny):
        f = f.resolve()
    t = type(f)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **dict(f.keywords, **k))
    if t is types.MethodType:
        fn, self_ = f.__func__, f.__self__
        if type(self_) is VList and fn is VList.__iter__:
            return m_iter(self_, *a, **k)
    else:
        fn, self_ = f, None
    try:
        rep = e.replacements.get(fn) if e.replacements else None
    except (TypeError, Unsupported):
        rep = None
    if rep is not None and not rep.running:
        rep.used += 1
        if t is types.MethodType:
            return rep.spec(self_, *a, **k)
        return rep.spec(*a, **k)
    if t is types.FunctionType or t is types.MethodType:
        code = getattr(fn, '__code__', None)
        if code is None:
            return f(*a, **k)
        if e.locals_:
            for lc in e.locals_:
                if lc.matches(fn, code):
                    return lc.call(f, a, k)
        if in_scope(code):
            loops = e.path.loops
            n = len(loops)
            try:
                return f(*a, **k)
            finally:
                if len(loops) > n:      # loops that were left by return or an exception
                    del loops[n:]
        w = getattr(fn, '__wrapped__', None)
        if w is not None and getattr(w, '__code__', None) is not None and in_scope(w.__code__):
            return f(*a, **k)
        if isinstance(self_, (logging.Logger, logging.LoggerAdapter)):
            if fn.__name__ in ('debug', 'info', 'warning', 'error', 'critical', 'log', 'exception', 'fatal'):
                return None
        m = FUNC_MODELS.get((fn.__module__, fn.__name__))
        if m is not None:
            return m(f, *a, **k)
        if any(deep_proxy(x) for x in a) or any(deep_proxy(x) for x in k.values()):
            raise Unsupported('call of unmodelled library function %s.%s with symbolic arguments' % (
                fn.__module__, fn.__qualname__))
        return f(*[native(x) for x in a], **{n: native(x) for n, x in k.items()})
    if isinstance(f, type):
        m = TYPE_MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        mod = sys.modules.get(f.__module__)
        fn_ = getattr(mod, '__file__', '') or ''
        if any(fn_.startswith(p) for p in REPO_PREFIXES) or issubclass(f, (V.ObjProxy,)):
            if type(f).__call__ is type.__call__ and f.__new__ is object.__new__ and f.__init__ is not object.__init__:
                o = object.__new__(f)
                track(o)            # what its constructor writes is new in every iteration
                f.__init__(o, *a, **k)
                return o
            o = f(*a, **k)
            if type(o).__module__ != 'builtins':
                track(o)
            return o
        if any(deep_proxy(x) for x in a) or any(deep_proxy(x) for x in k.values()):
            if f.__module__ in ('functools',):
                return f(*a, **k)
            raise Unsupported('constructor of unmodelled class %s with symbolic arguments' % f)
        return f(*[native(x) for x in a], **{n: native(x) for n, x in k.items()})
    if t is types.BuiltinFunctionType or t in (types.MethodWrapperType, types.MethodDescriptorType,
                                               types.WrapperDescriptorType, types.ClassMethodDescriptorType):
        return builtin_call(f, a, k)
    return f(*a, **k)


def track_new(f):
    pass


def builtin_call(f, a, k):
    m = BUILTIN_MODELS.get(f) if _hashable(f) else None
    if m is not None:
        return m(*a, **k)
    s = getattr(f, '__self__', None)
    if isinstance(s, str) and type(s) is str:
        n = f.__name__
        if n == 'join':
            return str_join(s, *a)
        if any(deep_proxy(x) for x in a) or any(deep_proxy(x) for x in k.values()):
            if n == 'format':
                return str_format(s, a, k)
            if n in ('startswith', 'endswith', 'find'):
                return getattr(SymStr(z3.StringVal(s)), n)(*a, **k)
            raise Unsupported('str.%s with symbolic arguments' % n)
        return f(*[native(x) for x in a], **{n_: native(x) for n_, x in k.items()})
    if type(s) in (dict, collections.OrderedDict) and f.__name__ == 'get' and is_proxy(a[0]):
        for x in list(s):
            if bool(x == a[0]):
                return s[x]
        return a[1] if len(a) > 1 else None
    if type(s) in (list, collections.deque, dict, set) and f.__name__ in (
            'append', 'appendleft', 'extend', 'insert', 'update', 'setdefault', 'add', 'put_nowait'):
        # a native container that existed before the run: fine outside cut loops
        if core.E.path.loops:
            raise Unsupported('write to a native container in a cut loop')
        return f(*[x.items if type(x) is VList and f.__name__ == 'extend' else x for x in a], **k)
    if isinstance(s, BaseException) and f.__name__ == '__init__':
        return f(*a, **k)          # stores its arguments
    if any(deep_proxy(x) for x in a) or any(deep_proxy(x) for x in k.values()):
        raise Unsupported('call of unmodelled builtin %r with symbolic arguments' % (f,))
    return f(*[native(x) for x in a], **{n: native(x) for n, x in k.items()})


def _hashable(f):
    try:
        hash(f)
        return True
    except Exception:
        return False


def str_format(s, a, k):
    """'..{}..'.format: exact for plain automatic fields over strings, opaque otherwise."""
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return fmt_of('format')
        if isinstance(v, SymAny):
            v = v.resolve()
        if spec or conv:
            return fmt_of('format')
        if type(v) is SymStr:
            parts.append(v)
        elif type(v) is SymNum and v.term.sort() == V.IntS:
            parts.append(m_str(v))
        elif not deep_proxy(v):
            parts.append('{}'.format(native(v)))
        else:
            return fmt_of('format')
    return fstr(*parts)


JOIN = {}


def join_uf(sep):
    """join(sep, seq): spec function with its defining equations."""
    return V.uf('join', V.StrS, z3.SeqSort(V.StrS), V.StrS)


class JoinFold(V.Fold):
    """''.join over the prefixes of a sequence of strings given by another fold or sequence."""


def str_join(sep, it):
    if core.E is None:
        return sep.join(it)
    sept = V.sterm(sep)
    if isinstance(it, V.OpaqueIter):
        return fmt_of('join')
    if type(it) is Gen and it.is_symbolic():
        acc = _Cell('')
        first = _Cell(True)
        track(acc), track(first)

        def body(v):
            if type(v) is not SymStr and not isinstance(v, str):
                raise TypeError('sequence item: expected str instance')
            if z3.is_string_value(sept) and sept.as_string() == '':
                setattr_(acc, 'v', acc.v + v)
            elif bool(first.v):
                setattr_(acc, 'v', v)
            else:
                setattr_(acc, 'v', acc.v + sep + v)
            setattr_(first, 'v', False)
        it.each(body)
        return acc.v
    lst = to_vlist(it)
    if lst.items is not None:
        r = ''
        for i, v in enumerate(lst.items):
            if isinstance(v, SymAny):
                v = v.resolve()
            if type(v) is not SymStr and not isinstance(v, str):
                raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(v).__name__))
            r = r + v if i == 0 else r + sep + v
        return r
    if lst.kind is not StrK:
        raise Unsupported('join over a symbolic sequence of %s' % lst.kind)
    return StrK.wrap(join_uf(sep)(sept, lst.term))


class _Cell:
    def __init__(self, v):
        self.v = v


def m_len(o):
    if isinstance(o, SymAny):
        o = o.resolve()
    if type(o) in (VList, VDict, V.VSet):
        return o.length()
    if type(o) is SymStr:
        return IntK.wrap(z3.Length(o.term))
    if isinstance(o, ObjProxy) and hasattr(type(o), 'vc_len'):
        return o.vc_len()
    if isinstance(o, ObjProxy) and hasattr(type(o), 'vc_iter'):
        return m_len(o.vc_iter())
    return len(o)


def m_isinstance(o, c):
    if isinstance(o, SymAny):
        o = o.resolve()
    if isinstance(o, ObjProxy) and hasattr(type(o), 'vc_isinstance'):
        return o.vc_isinstance(c)
    if type(c) is VList:
        c = tuple(c.items)
    if type(c) is tuple:
        c = tuple(native_types(c))
    if isinstance(o, ObjProxy):
        cl = o.__class__
        return any(isinstance(o, x) or (isinstance(x, type) and issubclass(cl, x))
                   for x in (c if isinstance(c, tuple) else (c,)))
    return isinstance(o, c)


def native_types(c):
    for x in c:
        if type(x) is VList:
            yield from native_types(x.items)
        elif isinstance(x, tuple):
            yield from native_types(x)
        else:
            yield x


def m_any(it):
    if type(it) is Gen:
        return it.each(lambda v: bool(v))
    r = as_iter(it)
    if r[0] == 'c':
        return any(bool(x) for x in r[1])
    return Gen('any', it, lambda x: x, None, False).each(lambda v: bool(v))


def m_all(it):
    g = it if type(it) is Gen else Gen('all', it, lambda x: x, None, False)
    return not g.each(lambda v: not bool(v))


def m_next(it, *d):
    if type(it) is Gen:
        cell = _Cell(None)
        if it.each(lambda v: (setattr(cell, 'v', v), True)[1]):
            return cell.v
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


def m_iter(it, *a):
    if a:
        raise Unsupported('two-argument iter')
    if type(it) in (Gen, VIter):
        return it
    f = own_iter(it)
    if f is not None:
        r = call(f, it)
        return r if type(r) in (Gen, VIter) else iter(r)
    r = as_iter(it)
    if r[0] == 'c':
        return r[1]
    src = it if type(it) is VList else None
    if src is not None:
        src = src.vc_copy(list)
    return VIter(r[1], r[2], r[3], once=src)


def m_list(it=()):
    v = to_vlist(it)
    return v.vc_copy(list)


def m_tuple(it=()):
    v = to_vlist(it)
    if v.items is not None:
        return tuple(v.items)
    return v.vc_copy(tuple)


def m_deque(it=(), maxlen=None):
    if maxlen is not None:
        raise Unsupported('bounded deque')
    return to_vlist(it).vc_copy(collections.deque)


def m_dict(*a, **k):
    d = VDict()
    if a and type(a[0]) is VDict:
        d = a[0].vc_copy(dict)
        a = ()
    d.update(*a, **k)
    return d


def m_set(it=()):
    if isinstance(it, SymAny):
        it = it.resolve()
    if type(it) is V.VSet:
        return it.copy()
    if type(it) is VDict and it.items_ is None:
        it = it.keys()
    if type(it) is V.OpaqueIter and it.kind is not None:
        return V.VSet(kind=it.kind, arr=it.pres)
    if type(it) is Gen:
        r = V.VSet()
        it.each(lambda v: r.add(v))
        return r
    v = to_vlist(it)
    if v.items is None:
        # exactly the elements of the sequence
        x = z3.Const('el!', v.kind.sort)
        return V.VSet(kind=v.kind, arr=z3.Lambda([x], z3.Contains(v.term, z3.Unit(x))))
    r = V.VSet()
    for x in v.items:
        r.add(x)
    return r


def m_str(*a, **k):
    if len(a) == 1 and not k:
        o = a[0]
        if isinstance(o, SymAny):
            o = o.resolve()
        if type(o) is SymStr:
            return o
        if hasattr(type(o), 'vc_str'):
            return o.vc_str()
        if deep_proxy(o):
            if type(o) is SymNum and o.term.sort() == V.IntS:
                return StrK.wrap(z3.If(o.term >= 0, z3.IntToStr(o.term),
                                       z3.Concat(z3.StringVal('-'), z3.IntToStr(-o.term))))
            if type(o) is SymBool:
                return StrK.wrap(z3.If(o.term, z3.StringVal('True'), z3.StringVal('False')))
            return fmt_of('str')
        return str(native(o))
    return str(*a, **k)


def m_repr(o):
    if deep_proxy(o):
        return fmt_of('repr')
    return repr(native(o))


def m_bool(o=False):
    if type(o) is SymBool:
        return o
    return bool(o)


def m_int(*a):
    if a and isinstance(a[0], SymAny):
        a = (a[0].resolve(),) + a[1:]
    if a and type(a[0]) is SymNum and a[0].term.sort() == V.IntS and len(a) == 1:
        return a[0]
    if a and type(a[0]) is SymStr:
        ok = V.uf('int.ok', V.StrS, V.BoolS)(a[0].term)
        if core.cur().branch(ok):
            return IntK.wrap(V.uf('int.val', V.StrS, V.IntS)(a[0].term))
        raise ValueError('invalid literal for int()')
    if any(is_proxy(x) for x in a):
        raise Unsupported('int() of a symbolic value')
    return int(*a)


def m_float(*a):
    if a and isinstance(a[0], SymAny):
        a = (a[0].resolve(),)
    if a and type(a[0]) is SymNum:
        t = a[0].term
        return V.RealK.wrap(z3.ToReal(t) if t.sort() == V.IntS else t)
    if a and type(a[0]) is SymStr:
        ok = V.uf('float.ok', V.StrS, V.BoolS)(a[0].term)
        if core.cur().branch(ok):
            return V.RealK.wrap(V.uf('float.val', V.StrS, V.RealS)(a[0].term))
        raise ValueError('could not convert string to float')
    if any(is_proxy(x) for x in a):
        raise Unsupported('float() of a symbolic value')
    return float(*a)


def m_enumerate(it, start=0):
    r = as_iter(it)
    if r[0] == 'c':
        return enumerate(r[1], start)
    return VIter(r[1], lambda k: (IntK.wrap(k + V.IntK.unwrap(start)), r[2](k)), r[3])


def m_zip(*its, **kw):
    rs = [as_iter(i) for i in its]
    if all(r[0] == 'c' for r in rs):
        return zip(*[r[1] for r in rs])
    if len(rs) == 2 and all(r[0] == 's' for r in rs):
        n = z3.If(rs[0][1] < rs[1][1], rs[0][1], rs[1][1])
        return VIter(n, lambda k: (rs[0][2](k), rs[1][2](k)))
    raise Unsupported('zip of mixed iterables')


def m_reversed(it):
    r = as_iter(it)
    if r[0] == 'c':
        return iter(list(r[1])[::-1])
    return VIter(r[1], lambda k: r[2](r[1] - 1 - k), r[3])


def m_map(f, *its):
    if len(its) != 1:
        raise Unsupported('map over several iterables')
    return Gen('map', its[0], lambda x: call(f, x), None, False)


def m_filter(f, it):
    return Gen('filter', it, lambda x: x, (lambda x: call(f, x)) if f is not None else (lambda x: x), False)


def m_sum(it, start=0):
    acc = _Cell(start)
    track(acc)
    g = it if type(it) is Gen else Gen('sum', it, lambda x: x, None, False)

    def body(v):
        setattr_(acc, 'v', acc.v + (v if not isinstance(v, (bool, SymBool)) else
                                    IntK.wrap(z3.If(lift(v), z3.IntVal(1), z3.IntVal(0)))))
    g.each(body)
    return acc.v


def m_type(*a):
    if len(a) == 1:
        return V.type_of(a[0])
    return type(*[native(x) for x in a])


def m_hasattr(o, n):
    if isinstance(o, SymAny):
        o = o.resolve()
    return hasattr(o, n)


def m_getattr(o, n, *d):
    if isinstance(o, SymAny):
        o = o.resolve()
    if type(n) is SymStr:
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)


def m_setattr(o, n, v):
    if type(n) is SymStr:
        raise Unsupported('setattr with a symbolic name')
    setattr_(o, n, v)


def m_callable(o):
    if type(o) in PROXIES:
        return False
    if isinstance(o, ObjProxy):
        return any('__call__' in c.__dict__ for c in type(o).__mro__)
    return callable(o)


def m_range(*a):
    if not any(is_proxy(x) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = z3.IntVal(0), IntK.unwrap(a[0])
    elif len(a) == 2:
        lo, hi = IntK.unwrap(a[0]), IntK.unwrap(a[1])
    else:
        raise Unsupported('range with step')
    return VIter(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda k: IntK.wrap(lo + k))


def m_id(o):
    if isinstance(o, ObjProxy):
        return IntK.wrap(o.term)
    return id(o)


def extreme(f, a, k, better):
    if not any(map(deep_proxy, a)) and not (len(a) == 1 and isinstance(a[0], (VIter, VList, types.GeneratorType))):
        return f(*a, **k)
    if len(a) == 1:
        a = to_vlist(a[0]).items
        if a is None:
            raise Unsupported(f.__name__)
        if not any(map(deep_proxy, a)):
            return f(list(a), **k)
    if k or not a:
        raise Unsupported(f.__name__)
    r = a[0]
    for x in a[1:]:
        if bool(better(x, r)):
            r = x
    return r


def m_min(*a, **k):
    return extreme(min, a, k, lambda x, r: x < r)


def m_max(*a, **k):
    return extreme(max, a, k, lambda x, r: x > r)


def m_abs(x):
    if type(x) is SymNum:
        return x if bool(x >= 0) else -x
    return abs(x)


def m_issubclass(a, b):
    if type(b) is VList:
        b = tuple(b.items)
    if type(b) is tuple:
        b = tuple(native_types(b))
    return issubclass(a, b)


def m_sorted(it, **k):
    v = to_vlist(it)
    if v.items is None or deep_proxy(v):
        if k:
            raise Unsupported('sorted of symbolic values with a key')
        # some sequence of the same length: nothing else is known about it
        kind = v.guess_kind()
        if kind is None:
            raise Unsupported('sorted of symbolic values')
        r = VList(kind=kind, term=core.E.fresh('sorted', z3.SeqSort(kind.sort)))
        core.E.assume(z3.Length(r.term) == v.length().term if hasattr(v.length(), 'term') else z3.Length(r.term) == v.length())
        return r
    return VList(sorted(v.items, **k))


def m_print(*a, **k):
    return None


def m_hash(o):
    if isinstance(o, ObjProxy):
        return IntK.wrap(o.term)
    return hash(o)


TYPE_MODELS = {list: m_list, tuple: m_tuple, dict: m_dict, collections.OrderedDict: m_dict, set: m_set, str: m_str, bool: m_bool,
               int: m_int, float: m_float, collections.deque: m_deque, enumerate: m_enumerate,
               zip: m_zip, reversed: m_reversed, map: m_map, filter: m_filter, type: m_type,
               range: m_range}
BUILTIN_MODELS = {len: m_len, isinstance: m_isinstance, any: m_any, all: m_all, next: m_next, iter: m_iter,
                  repr: m_repr, sum: m_sum, hasattr: m_hasattr, getattr: m_getattr, setattr: m_setattr,
                  callable: m_callable, id: m_id, min: m_min, max: m_max, abs: m_abs, issubclass: m_issubclass,
                  sorted: m_sorted, print: m_print, hash: m_hash}


def _warn(f, *a, **k):
    return None


def _passthrough(f, *a, **k):
    return f(*a, **k)


FUNC_MODELS = {('warnings', 'warn'): _warn, ('typing', 'cast'): lambda f, t, v: v,
               ('contextlib', 'suppress'): _passthrough}


def m_eval(src, *ns):
    if is_proxy(src):
        raise Unsupported('eval of a symbolic text')
    return eval(src, *ns)


BUILTIN_MODELS[eval] = m_eval
BUILTIN_MODELS[warnings.warn] = lambda *a, **k: None
