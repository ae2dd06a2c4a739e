"""Shared ghost objects and constructors for contract files (written for the real classes)."""
from pyvc.api import *  # noqa: F401,F403
from pyvc.api import (E, core, environ, fresh_any, fresh_bool, fresh_dict, fresh_int, fresh_obj, fresh_seq,
                      fresh_str, patch, prove, rt, track, use_contract, V)
from pyvc.api import *  # noqa
import logging

import z3
from z3 import And, Concat, Empty, If, Implies, IntVal, Length, Not, Or, Select, Store, StringVal, Unit  # noqa

import launch
import launch.launch_context
import launch.logging
from launch.launch_context import LaunchContext
from pyvc.core import Unsupported
from pyvc.values import *  # noqa
from pyvc.values import (AnyK, AnyS, BoolK, BoolS, DictFold, FilterFold, Fold, ForAllPrefix, IntK, IntS, JoinFold,
                         MapFold, MultiFold, ObjK, ObjProxy, RealK, RefK, StrK, StrS, SymAny, SymBool, SymNum, SymStr,
                         TupK, VDict, VIter, VList, lift, uf)


class Fake:
    """Harness object; anything the contract does not describe is out of reach, not an error."""

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s is not described by the contract' % (type(self).__name__, n))


class SymObj(ObjProxy):
    """Symbolic object whose undescribed members are out of reach."""

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s is not described by the contract' % (type(self).__name__, n))


def new(cls, *a, **k):
    """Construct a real object as transformed code would (tracked)."""
    return rt.call(cls, *a, **k)


def do(f, *a, **k):
    """Call a real function as transformed code would, contracts in use included."""
    return rt.call(f, *a, **k)


_LOG = logging.getLogger('pyvc')
_LOG.disabled = True


def quiet():
    """Loggers have no effect on any property except C22."""
    use_contract(launch.logging.get_logger, lambda *a, **k: _LOG)


def new_context(**k):
    """A context in an arbitrary state of the run: interactive or not, shut down or not."""
    quiet()
    k.setdefault('noninteractive', fresh_bool('noninteractive'))
    c = new(LaunchContext, **k)
    c._set_is_shutdown(fresh_bool('is_shutdown'))
    return c


def context(env=True, configs=True):
    """A real LaunchContext with arbitrary launch configurations and an arbitrary environment."""
    e = environ() if env else None
    c = new_context()
    if configs:
        c.launch_configurations.update(fresh_dict('configs'))
    return (c, e) if env else c


def set_private(obj, name, value):
    """Best effort: give a private field an arbitrary value if the class (still) has it."""
    for c in type(obj).__mro__:
        n = '_%s%s' % (c.__name__.lstrip('_'), name)
        if n in obj.__dict__:
            object.__setattr__(obj, n, value)
            return True
    return False


def havoc(d):
    """Arbitrary in-place change of a mapping."""
    n = fresh_dict('any')
    if isinstance(d, VDict) and d.items_ is None:
        d.vc_havoc((StrK, StrK))
    else:
        d.clear()
        d.update(n)


def snap(d):
    return d.vc_copy()


def same(name, d, old):
    """Extensional equality of two mappings."""
    prove(name, d.eq(old) if isinstance(d, VDict) else VDict(items=d).eq(old))


def entity_stack(name='stack'):
    return VList(kind=RefK, term=E().fresh(name, z3.SeqSort(IntS)))


SUBEVAL = uf('expand', IntS, StrS)           # expansion of one substitution object
SUBSEVAL = uf('expand_list', IntS, StrS)     # expansion of a normalized substitution list object


class Subst(SymObj):
    """A symbolic substitution: expands to a fixed but arbitrary text."""
    py_class = launch.Substitution

    def perform(self, ctx):
        return SymStr(SUBEVAL(self.term))

    def describe(self):
        return 'sub'


SubK = ObjK('substitution', Subst)


def subs_value(name):
    """A concrete one-element list of a symbolic substitution, and the text it expands to."""
    s = fresh_obj(name, SubK)
    return [s], SymStr(SUBEVAL(s.term))


def fresh_subst(name):
    s = fresh_obj(name, SubK)
    return s, SymStr(SUBEVAL(s.term))


# ---------------------------------------------------------------- expansion of substitution lists
CfgS = (z3.ArraySort(StrS, BoolS), z3.ArraySort(StrS, StrS))
EXPAND = uf('expand_in', IntS, CfgS[0], CfgS[1], StrS)   # (substitutions, configurations) -> text
NONEMPTY = uf('nonempty', IntS, BoolS)
LUT_NORM = launch.utilities.normalize_to_list_of_substitutions
LUT_PERF = launch.utilities.perform_substitutions
NORM_ASSUMES = ('normalize_to_list_of_substitutions(x) denotes x (C12)',
                'perform_substitutions(ctx, x) is the expansion of x in ctx (C12)')


class Subs(SymObj):
    """Something convertible to substitutions (the normalized list is identified with it)."""

    def vc_isinstance(self, c):
        raise Unsupported('type test on a substitution list under contract')

    def __bool__(self):
        """Nothing to expand (an empty text or list) is false, and expands to the empty text."""
        full = bool(BoolK.wrap(NONEMPTY(self.term)))
        if not full:
            E().path.nothing = [*getattr(E().path, 'nothing', ()), self.term]
        return full


SubsK = ObjK('substitutions', Subs)


def expand_contracts(ctx):
    """Callee contracts for normalizing and performing substitutions; expansion may read configurations."""
    use_contract(LUT_NORM, lambda x: x)

    def perf(c, x):
        prove('substitutions are expanded in the context of the action', c is ctx)
        if isinstance(x, str):
            return x
        if isinstance(x, Subs):
            return StrK.wrap(expand(x, ctx.launch_configurations))
        raise Unsupported('expansion of %r' % type(x))
    use_contract(LUT_PERF, perf)


def expand(x, d):
    x = x.term if hasattr(x, 'term') else x
    t = EXPAND(x, *d.arrays(StrK, StrK))
    return If(NONEMPTY(x), t, StringVal('')) if any(x.eq(y) for y in getattr(E().path, 'nothing', ())) else t


def presets(name):
    """A mapping of arbitrary length from substitutions to substitutions, in insertion order."""
    k = TupK(SubsK, SubsK)
    order = fresh_seq(name, k, cls=list)
    d = VDict.fresh(name, SubsK, SubsK)
    d.order = order
    return d, order, k


def empty_dict(kk, kv):
    from pyvc.values import default_array
    return VDict(kk=kk, kv=kv, pres=z3.K(kk.sort, z3.BoolVal(False)), val=default_array(kk, kv))


# ---------------------------------------------------------------- ghost locals (contract of C03)
class Locals:
    """The context locals through their contract: an abstract state, a stack of saved states."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cur = fresh_int('locals')
        self.stack = VList(kind=IntK, term=E().fresh('saved', z3.SeqSort(IntS)))
        self.cur0, self.stack0 = self.cur, self.stack.term
        track(self)
        L = LaunchContext
        use_contract(L._push_locals, self.push)
        use_contract(L._pop_locals, self.pop)
        use_contract(L.extend_locals, lambda c, d: self.change())

    def push(self, c):
        prove('locals of the right context', c is self.ctx)
        self.stack.append(self.cur)

    def pop(self, c):
        prove('locals of the right context', c is self.ctx)
        if not self.stack:
            raise RuntimeError('locals stack unexpectedly empty')
        rt.setattr_(self, 'cur', self.stack.pop())

    def change(self):
        rt.setattr_(self, 'cur', IntK.wrap(E().fresh('locals', IntS)))

    def check(self, name):
        prove(name, z3.And(IntK.unwrap(self.cur) == IntK.unwrap(self.cur0), self.stack.as_term(IntK) == self.stack0))


class Queue(Fake):
    """Event queue holding one given event."""

    def __init__(self, event):
        self.event = event
        self.taken = 0

    async def get(self):
        self.taken += 1
        return self.event

    def get_nowait(self):
        self.taken += 1
        return self.event
