"""What contract files use to state requires/ensures on real functions."""
import sys
import types

import z3

from . import core, rt, values as V
from .core import PathEnd, Undecided, Unsupported, track  # noqa: F401
from .values import *  # noqa: F401,F403
from .values import (AnyK, AnyS, BoolK, BoolS, Fold, IntK, IntS, ObjK, ObjProxy, RealK, RefK, StrK, StrS,
                     SymAny, SymBool, SymNum, SymStr, TupK, VDict, VIter, VList, lift, neg, uf)

UNITS = []
EvK = TupK(StrK, AnyK, AnyK, name='event')


class Unit:
    def __init__(self, prop, name, fn, targets, assumes, budget):
        self.prop, self.name, self.fn = prop, name, fn
        self.targets, self.assumes, self.budget = targets, assumes, budget


def unit(prop, targets, assumes=(), name=None, budget=90):
    """Register one verification unit: real functions, the callee contracts it uses."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            UNITS.append(Unit(p, name or fn.__name__, fn, list(targets), list(assumes), budget))
        return fn
    return deco


class Replacement:
    def __init__(self, spec):
        self.spec = spec
        self.used = 0
        self.running = False


def E():
    return core.cur()


def fresh_str(name):
    return SymStr(E().fresh(name, StrS))


def fresh_int(name):
    return SymNum(E().fresh(name, IntS))


def fresh_bool(name):
    return SymBool(E().fresh(name, BoolS))


def fresh_real(name):
    return SymNum(E().fresh(name, V.RealS))


def fresh_any(name):
    return SymAny(E().fresh(name, AnyS))


def fresh_obj(name, cls):
    k = cls if isinstance(cls, ObjK) else ObjK(name, cls)
    t = E().fresh(name, IntS)
    E().assume(t >= 0)
    return k.wrap(t)


def fresh_seq(name, kind, cls=list):
    s = VList(kind=kind, term=E().fresh(name, z3.SeqSort(kind.sort)), cls=cls)
    if isinstance(kind, ObjK):
        E().path.nonneg = True
    return s


def fresh_dict(name, kk=StrK, kv=StrK, cls=dict):
    return VDict.fresh(name, kk, kv, cls=cls)


def assume(c):
    E().assume(c.term if hasattr(c, 'term') else c)


def prove(name, c, detail=''):
    if isinstance(c, SymAny):
        c = c.resolve()
    E().prove(name, lift(c) if not isinstance(c, bool) else c, detail)


def fail(name, detail=''):
    E().prove(name, False, detail)


def case(cond):
    """Case split on a term."""
    return E().branch(cond.term if hasattr(cond, 'term') else cond)


def choose(n, label=''):
    return E().choice(n, label)


def patch(obj, name, value):
    """Replace an attribute for this path only."""
    missing = object()
    old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else missing
    setattr(obj, name, value)

    def undo():
        if old is missing:
            delattr(obj, name)
        else:
            setattr(obj, name, old)
    E().path.cleanup.append(undo)


def patch_global(name, value, packages=('launch', 'launch_xml', 'launch_yaml', 'launch_testing', 'launch_pytest'),
                 exclude=('launch.logging',)):
    """Replace a module-level name in every module under test that has it."""
    for m in list(sys.modules.values()):
        if not isinstance(m, types.ModuleType) or m.__name__.split('.')[0] not in packages or \
                m.__name__ in exclude or name not in m.__dict__:
            continue
        old = m.__dict__[name]
        if isinstance(old, types.ModuleType) and old.__name__ != name:
            continue
        patch(m, name, value)


def use_contract(func, spec):
    """Check callers against this contract of func instead of its body."""
    f = getattr(func, '__func__', func)
    r = Replacement(spec)
    E().replacements[f] = r
    return r


class LocalContract:
    """Contract of the functions defined inside a function: handler(f, args, kwargs, depth)."""

    def __init__(self, owner, handler):
        self.prefix = owner.__qualname__ + '.<locals>.'
        self.handler, self.depth, self.used = handler, 0, 0

    def matches(self, fn, code):
        q = code.co_qualname
        return q.startswith(self.prefix) and not q.endswith('>')

    def call(self, f, a, k):
        self.used += 1
        self.depth += 1
        try:
            return self.handler(f, a, k, self.depth)
        finally:
            self.depth -= 1


def use_local_contract(owner, handler):
    c = LocalContract(getattr(owner, '__func__', owner), handler)
    E().locals_.append(c)
    return c


class Facade:
    """A module stand-in: given names, the rest forwarded to the real module."""

    def __init__(self, real, **names):
        self.__dict__['_real'] = real
        self.__dict__.update(names)

    def __getattr__(self, n):
        return getattr(self._real, n)


def environ(name='environ'):
    """A symbolic os.environ, put in place of the real one in every module under test."""
    import os
    env = fresh_dict(name, StrK, StrK)
    patch_global('os', Facade(os, environ=env))
    return env


def new_trace():
    """Ghost trace of effects: a sequence of (tag, a, b)."""
    tr = VList(kind=EvK, term=z3.Empty(z3.SeqSort(EvK.sort)))
    E().path.trace = tr
    return tr


def emit(tag, a=None, b=None):
    E().path.trace.append((tag, a, b))


def ev(tag, a=None, b=None):
    """Event term for specs; a and b are values or Any terms."""
    def t(x):
        if isinstance(x, z3.ExprRef) and x.sort() == AnyS:
            return x
        return AnyK.unwrap(x)
    return EvK.mk(z3.StringVal(tag), t(a), t(b))


def evs(*events):
    if not events:
        return z3.Empty(z3.SeqSort(EvK.sort))
    return V.seq_cat([z3.Unit(x) for x in events], z3.SeqSort(EvK.sort))


def cat(*seqs):
    parts = []
    for s in seqs:
        parts.extend(V.seq_parts(s))
    return V.seq_cat(parts, seqs[0].sort())


def aref(term):
    return AnyS.ref(term)


def astr(term):
    return AnyS.str(term)


def invariant(name, fn):
    E().path.invariants.append((name, fn))


def ghost(name, fn):
    """A ghost value that some local variable of a cut loop may be kept equal to."""
    E().path.ghosts.append((name, fn))


def cut_while(pred):
    E().cut_while = pred


def outcome(f, *a, **k):
    """('ok', value) or ('raise', exception): exceptions of the program, not of the engine."""
    try:
        return 'ok', f(*a, **k)
    except core.EngineExc:
        raise
    except BaseException as exc:
        if isinstance(exc, (RecursionError, MemoryError)):
            raise
        if harness_error(exc):
            raise Unsupported('error in a contract: %r' % exc)
        return 'raise', exc


def harness_error(exc):
    """Raised by the contract itself, not by a raise statement in it that describes a callee."""
    import traceback
    tb = traceback.extract_tb(exc.__traceback__)
    if not tb:
        return False
    f = tb[-1]
    return '/z3/' in f.filename or ('/contracts/' in f.filename and not (f.line or '').startswith('raise'))


def run_coro(coro):
    """Drive a coroutine whose awaitables are all given by the harness."""
    try:
        while True:
            coro.send(None)
    except StopIteration as s:
        return s.value


class Future:
    """Concrete future of a harness (state may be symbolic)."""


def mangled(obj, cls, name):
    return getattr(obj, '_%s%s' % (cls, name))


def private(obj, name):
    """Value of a private attribute, wherever in the class hierarchy it is defined."""
    for c in type(obj).__mro__:
        n = '_%s%s' % (c.__name__.lstrip('_'), name)
        if n in obj.__dict__:
            return obj.__dict__[n]
    raise AttributeError(name)
