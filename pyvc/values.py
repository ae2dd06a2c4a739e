"""Symbolic values: scalars, sequences, mappings, opaque objects; spec folds over sequences."""
import z3

from . import core
from .core import PathEnd, UNBOUND, Unsupported, log_write, track

IntS, BoolS, StrS, RealS = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()

_Any = z3.Datatype('Any')
_Any.declare('none')
_Any.declare('bool', ('b', BoolS))
_Any.declare('int', ('i', IntS))
_Any.declare('real', ('r', RealS))
_Any.declare('str', ('s', StrS))
_Any.declare('ref', ('o', IntS))
AnyS = _Any.create()


# ---------------------------------------------------------------- kinds
class Kind:
    name = '?'
    sort = None

    def __repr__(self):
        return self.name

    def wrap(self, term):
        raise NotImplementedError

    def unwrap(self, py):
        raise NotImplementedError


class _StrK(Kind):
    name, sort = 'str', StrS

    def wrap(self, term):
        t = z3.simplify(term)
        if z3.is_string_value(t):
            return z3str(t)
        return SymStr(t)

    def unwrap(self, py):
        if isinstance(py, SymAny):
            py = py.resolve()
        if type(py) is SymStr:
            return py.term
        if isinstance(py, str) and type(py) is not SymStr:
            return z3.StringVal(py)
        raise KindError(py, self)


class _IntK(Kind):
    name, sort = 'int', IntS

    def wrap(self, term):
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        return SymNum(t)

    def unwrap(self, py):
        if isinstance(py, SymAny):
            py = py.resolve()
        if type(py) is SymNum and py.term.sort() == IntS:
            return py.term
        if type(py) is int:
            return z3.IntVal(py)
        raise KindError(py, self)


class _RealK(Kind):
    name, sort = 'real', RealS

    def wrap(self, term):
        return SymNum(z3.simplify(term))

    def unwrap(self, py):
        if isinstance(py, SymAny):
            py = py.resolve()
        if type(py) is SymNum and py.term.sort() == RealS:
            return py.term
        if type(py) is float:
            return z3.RealVal(repr(py))
        raise KindError(py, self)


class _BoolK(Kind):
    name, sort = 'bool', BoolS

    def wrap(self, term):
        t = z3.simplify(term)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)

    def unwrap(self, py):
        if isinstance(py, SymAny):
            py = py.resolve()
        if type(py) is SymBool:
            return py.term
        if type(py) is bool:
            return z3.BoolVal(py)
        raise KindError(py, self)


class KindError(Unsupported):
    def __init__(self, py, kind):
        super().__init__('value of type %s does not fit kind %s' % (type(py).__name__, kind))


StrK, IntK, RealK, BoolK = _StrK(), _IntK(), _RealK(), _BoolK()


def ref_of(py):
    """The reference term of a concrete Python object or an object proxy."""
    if isinstance(py, ObjProxy):
        return py.term
    p = core.E.path
    if id(py) not in p.refs:
        n = -(len(p.refs) + 1)          # concrete objects: negative, pairwise distinct
        p.refs[id(py)] = (n, py)
        p.refobjs[n] = py
    return z3.IntVal(p.refs[id(py)][0])


def deref(term, kind=None):
    t = z3.simplify(term)
    p = core.E.path
    if z3.is_int_value(t):
        n = t.as_long()
        if n in p.refobjs:
            return p.refobjs[n]
    key = t.get_id()
    if key in p.wrapcache:
        return p.wrapcache[key][1]
    if kind is None:
        raise Unsupported('reference to an unknown object: %s' % t)
    o = kind.make(t)
    p.wrapcache[key] = (t, o)
    return o


class ObjK(Kind):
    """References to objects of one symbolic class; make(term) builds the proxy.

    Symbolic objects are non-negative references; concrete ones are negative.
    """
    sort = IntS

    def __init__(self, name, cls):
        self.name = 'obj:' + name
        self.cls = cls

    def make(self, term):
        if z3.is_int_value(term) and term.as_long() < 0:
            raise Unsupported('dangling reference')
        o = self.cls(term)
        o._kind = self
        return o

    def wrap(self, term):
        return deref(term, self)

    def unwrap(self, py):
        if isinstance(py, SymAny):
            py = py.resolve()
        if isinstance(py, (str, bool, int, float, SymStr, SymNum, SymBool)) or py is None:
            raise KindError(py, self)
        return ref_of(py)


class _RefK(ObjK):
    def __init__(self):
        self.name = 'ref'

    def make(self, term):
        k = getattr(core.E.path, 'refkind', None)
        if k is not None:
            return k.make(term)
        e, t = core.E, term
        while z3.is_select(t) and z3.is_store(t.arg(0)):
            a, i = t.arg(0), t.arg(1)
            t = z3.simplify(a.arg(2) if e.branch(i == a.arg(1)) else z3.Select(a.arg(0), i))
        if z3.is_int_value(t) and t.as_long() in e.path.refobjs:
            return e.path.refobjs[t.as_long()]
        raise Unsupported('reference to an unknown object: %s' % term)


RefK = _RefK()


class _AnyK(Kind):
    name, sort = 'any', AnyS

    def wrap(self, term):
        t = z3.simplify(term)
        d = t.decl()
        if d.eq(AnyS.none):
            return None
        for ctor, acc, kind in _any_parts():
            if d.eq(ctor):
                return kind.wrap(t.arg(0))
        return SymAny(t)

    def unwrap(self, py):
        if type(py) is SymAny:
            return py.term
        if py is None:
            return AnyS.none
        if type(py) in (bool, SymBool):
            return AnyS.bool(BoolK.unwrap(py))
        if type(py) is int or (type(py) is SymNum and py.term.sort() == IntS):
            return AnyS.int(IntK.unwrap(py))
        if type(py) in (float, SymNum):
            return AnyS.real(RealK.unwrap(py))
        if type(py) is SymStr or isinstance(py, str):
            return AnyS.str(StrK.unwrap(py))
        return AnyS.ref(ref_of(py))


def _any_parts():
    return ((AnyS.bool, AnyS.b, BoolK), (AnyS.int, AnyS.i, IntK), (AnyS.real, AnyS.r, RealK),
            (AnyS.str, AnyS.s, StrK), (AnyS.ref, AnyS.o, RefK))


AnyK = _AnyK()
_tup_cache = {}


class TupK(Kind):
    """Fixed-size tuples, as a z3 datatype."""

    def __init__(self, *kinds, name=None):
        self.kinds = kinds
        self.name = name or 'tup(%s)' % ','.join(k.name for k in kinds)
        key = tuple(str(k.sort) for k in kinds)
        if key not in _tup_cache:
            dt = z3.Datatype('T_' + '_'.join(key).replace(' ', '_').replace('(', '').replace(')', ''))
            dt.declare('mk', *[('f%d' % i, k.sort) for i, k in enumerate(kinds)])
            _tup_cache[key] = dt.create()
        self.sort = _tup_cache[key]

    def wrap(self, term):
        t = z3.simplify(term)
        return tuple(k.wrap(self.sort.accessor(0, i)(t)) for i, k in enumerate(self.kinds))

    def unwrap(self, py):
        if isinstance(py, VList) and py.items is not None:
            py = tuple(py.items)
        if not isinstance(py, tuple) or len(py) != len(self.kinds):
            raise KindError(py, self)
        return self.sort.mk(*[k.unwrap(v) for k, v in zip(self.kinds, py)])

    def mk(self, *terms):
        return self.sort.mk(*terms)


class _SeqCache:
    pass


class SeqOfK(Kind):
    """Sequences as elements (immutable value view)."""

    def __init__(self, kind):
        self.kind = kind
        self.name = 'seq(%s)' % kind.name
        self.sort = z3.SeqSort(kind.sort)

    def wrap(self, term):
        return VList(kind=self.kind, term=term)

    def unwrap(self, py):
        if isinstance(py, (list, tuple)) and not isinstance(py, VList):
            py = VList(list(py))
        if not isinstance(py, VList):
            raise KindError(py, self)
        return py.as_term(self.kind)


def z3str(t):
    """Python string of a z3 string value."""
    s = t.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def kind_of(v):
    if isinstance(v, SymAny):
        return AnyK
    t = type(v)
    if t is SymStr or t is str:
        return StrK
    if t in (SymBool, bool):
        return BoolK
    if t is int:
        return IntK
    if t is SymNum:
        return IntK if v.term.sort() == IntS else RealK
    if t is float:
        return RealK
    if v is None:
        return AnyK
    if isinstance(v, ObjProxy):
        return v._kind or RefK
    if t is tuple:
        return TupK(*[kind_of(x) for x in v])
    return getattr(t, 'vc_kind', RefK)


def unify(a, b):
    if a is None:
        return b
    if b is None or a is b or (a.name == b.name and a.sort == b.sort):
        return a
    if isinstance(a, ObjK) and isinstance(b, ObjK):
        return a if b is RefK else b if a is RefK else RefK
    return AnyK


# ---------------------------------------------------------------- scalars
def lift(v):
    if type(v) is SymBool:
        return v.term
    if type(v) is bool:
        return z3.BoolVal(v)
    return v


class Proxy:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __reduce__(self):
        raise Unsupported('copy of a symbolic value')


class SymBool(Proxy):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.cur().branch(self.term)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return BoolK.wrap(self.term == lift(o))
        if o is None or isinstance(o, (str, VList, VDict)):
            return False
        return NotImplemented

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = Proxy.__hash__

    def __and__(self, o):
        return BoolK.wrap(z3.And(self.term, lift(o)))

    def __or__(self, o):
        return BoolK.wrap(z3.Or(self.term, lift(o)))

    __rand__, __ror__ = __and__, __or__

    def __xor__(self, o):
        return BoolK.wrap(z3.Xor(self.term, lift(o)))

    def __invert__(self):
        return BoolK.wrap(z3.Not(self.term))

    def __str__(self):
        raise Unsupported('str of a symbolic bool')

    def __repr__(self):
        return '<SymBool %s>' % self.term


def neg(x):
    if x is NotImplemented:
        return x
    if isinstance(x, SymBool):
        return BoolK.wrap(z3.Not(x.term))
    return not x


class SymNum(Proxy):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    @property
    def __class__(self):
        return int if self.term.sort() == IntS else float

    def _o(self, o):
        if isinstance(o, SymAny):
            o = o.resolve()
        if type(o) is SymNum:
            return o.term
        if type(o) is SymBool:
            return z3.If(o.term, z3.IntVal(1), z3.IntVal(0))
        if type(o) is bool:
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, float):
            if o in (float('inf'), float('-inf')) or o != o:
                raise Unsupported('non-finite float')
            return z3.RealVal(repr(o))
        return None

    def _bin(self, o, f):
        t = self._o(o)
        if t is None:
            return NotImplemented
        r = f(self.term, t)
        return IntK.wrap(r) if r.sort() == IntS else RealK.wrap(r)

    def _cmp(self, o, f):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return BoolK.wrap(f(self.term, t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return self._bin(0, lambda a, b: b - a)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = Proxy.__hash__

    def __bool__(self):
        return core.cur().branch(self.term != 0)

    def __index__(self):
        raise Unsupported('symbolic number used as an index')

    __int__ = __float__ = __str__ = __index__

    def __format__(self, spec):
        raise Unsupported('format of a symbolic number')

    def __repr__(self):
        return '<SymNum %s>' % self.term


_ufs = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _ufs:
        _ufs[key] = z3.Function(name, *sorts)
    return _ufs[key]


def sterm(v):
    return StrK.unwrap(v)


class SymStr(Proxy):
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    @property
    def __class__(self):
        return str

    def _isstr(self, o):
        return type(o) is SymStr or (isinstance(o, str) and type(o) is not SymStr)

    def __add__(self, o):
        if isinstance(o, SymAny):
            o = o.resolve()
        if not self._isstr(o):
            return NotImplemented
        return StrK.wrap(z3.Concat(self.term, sterm(o)))

    def __radd__(self, o):
        if not self._isstr(o):
            return NotImplemented
        return StrK.wrap(z3.Concat(sterm(o), self.term))

    def __eq__(self, o):
        if isinstance(o, SymAny):
            return o == self
        if not self._isstr(o):
            return False
        return BoolK.wrap(self.term == sterm(o))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = Proxy.__hash__

    def __bool__(self):
        return core.cur().branch(self.term != z3.StringVal(''))

    def __len__(self):
        raise Unsupported('len() of a symbolic string outside a modelled call')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def __str__(self):
        raise Unsupported('implicit str() of a symbolic string')

    def __format__(self, spec):
        raise Unsupported('implicit format of a symbolic string')

    def __repr__(self):
        return '<SymStr %s>' % self.term

    def __lt__(self, o):
        return BoolK.wrap(self.term < sterm(o))

    def __le__(self, o):
        return BoolK.wrap(self.term <= sterm(o))

    def __gt__(self, o):
        return BoolK.wrap(sterm(o) < self.term)

    def __ge__(self, o):
        return BoolK.wrap(sterm(o) <= self.term)

    def __contains__(self, o):
        return bool(self.vc_contains(o))

    def vc_contains(self, o):
        return BoolK.wrap(z3.Contains(self.term, sterm(o)))

    # methods
    def _u(self, name, *args):
        f = uf('str.' + name, StrS, *([StrS] * len(args)), StrS)

        def dist(t):
            if not args and z3.is_string_value(t):
                return z3.StringVal(getattr(t.as_string(), name)())
            if not args and z3.is_app_of(t, z3.Z3_OP_ITE):
                return z3.If(t.arg(0), dist(t.arg(1)), dist(t.arg(2)))
            return f(t, *[sterm(a) for a in args])
        return StrK.wrap(dist(self.term))

    def strip(self, *a): return self._u('strip', *a)
    def lstrip(self, *a): return self._u('lstrip', *a)
    def rstrip(self, *a): return self._u('rstrip', *a)
    def lower(self): return self._u('lower')
    def upper(self): return self._u('upper')
    def casefold(self): return self._u('casefold')
    def title(self): return self._u('title')

    def startswith(self, o, *a):
        if a:
            raise Unsupported('startswith with a position')
        if isinstance(o, tuple):
            r = False
            for x in o:
                r = BoolK.wrap(z3.Or(lift(r), z3.PrefixOf(sterm(x), self.term)))
            return r
        return BoolK.wrap(z3.PrefixOf(sterm(o), self.term))

    def endswith(self, o, *a):
        if a:
            raise Unsupported('endswith with a position')
        return BoolK.wrap(z3.SuffixOf(sterm(o), self.term))

    def find(self, o, start=0, *a):
        if a:
            raise Unsupported('find with an end')
        return IntK.wrap(z3.IndexOf(self.term, sterm(o), IntK.unwrap(start)))

    def _cut(self, sep):
        """Text before and after the first occurrence of a non-empty separator, or None."""
        t = sterm(sep)
        if core.cur().branch(t == z3.StringVal('')):
            raise ValueError('empty separator')
        if not core.cur().branch(z3.Contains(self.term, t)):
            return None
        i, n = z3.IndexOf(self.term, t, 0), z3.Length(self.term)
        j = i + z3.Length(t)
        return StrK.wrap(z3.SubString(self.term, 0, i)), StrK.wrap(z3.SubString(self.term, j, n - j))

    def partition(self, sep):
        c = self._cut(sep)
        return (c[0], sep, c[1]) if c else (self, '', '')

    def index(self, o, *a):
        if a:
            raise Unsupported('index within bounds')
        if not core.cur().branch(z3.Contains(self.term, sterm(o))):
            raise ValueError('substring not found')
        return IntK.wrap(z3.IndexOf(self.term, sterm(o), 0))

    def count(self, o, *a):
        t = sterm(o)
        if a or not z3.is_string_value(t) or not len(z3str(t)):
            raise Unsupported('count')
        e, s, n = core.cur(), self.term, len(z3str(t))
        c = uf('str.count', StrS, StrS, IntS)(s, t)
        i = z3.IndexOf(s, t, 0) + n
        e.assume(z3.And(c >= 0, c * n <= z3.Length(s), (c == 0) == z3.Not(z3.Contains(s, t)),
                        (c <= 1) == z3.Not(z3.And(z3.Contains(s, t), z3.Contains(z3.SubString(s, i, z3.Length(s) - i), t)))))
        lit = z3str(t)
        if not any(lit[:i] == lit[-i:] for i in range(1, n)):
            # occurrences of a text without a border do not overlap
            e.assume(z3.Implies(z3.And(c == 1, z3.SuffixOf(t, s)), i == z3.Length(s)))
            e.assume(z3.Implies(c > 1, i + n <= z3.Length(s)))
        e.assume(z3.Implies(c > 0, z3.And(i >= n, i <= z3.Length(s), z3.Implies(i == z3.Length(s), z3.SuffixOf(t, s)),
                                          (i == n) == z3.PrefixOf(t, s))))
        return IntK.wrap(c)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or type(maxsplit) is not int or maxsplit > 1:
            raise Unsupported('split at whitespace or with a limit')
        if maxsplit == 1:
            c = self._cut(sep)
            return VList([*c] if c else [self])
        if maxsplit == 0:
            return VList([self])
        t = sterm(sep)
        if core.cur().branch(t == z3.StringVal('')):
            raise ValueError('empty separator')
        return VList(kind=StrK, term=uf('str.split', StrS, StrS, z3.SeqSort(StrS))(self.term, t))

    def splitlines(self, keepends=False):
        f = 'str.splitlines.keepends' if keepends else 'str.splitlines'
        return VList(kind=StrK, term=uf(f, StrS, z3.SeqSort(StrS))(self.term))

    def replace(self, a, b, *c):
        raise Unsupported('replace on a symbolic string')

    def format(self, *a, **k):
        return StrK.wrap(core.cur().fresh('fmt', StrS))

    def join(self, it):
        from . import rt
        return rt.str_join(self, it)

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('str.%s on a symbolic string' % name)

    def vc_getitem(self, k):
        n = z3.Length(self.term)
        if isinstance(k, slice) and k.start is None and k.step is None and type(k.stop) is int and k.stop < 0 and \
                z3.is_app_of(self.term, z3.Z3_OP_SEQ_CONCAT):
            args = self.term.children()
            last = z3.simplify(args[-1])
            if z3.is_string_value(last) and len(last.as_string()) >= -k.stop and '\\u' not in last.as_string():
                return StrK.wrap(z3.Concat(*args[:-1], z3.StringVal(z3str(last)[:k.stop])))

        def idx(i, default):
            if i is None:
                return default
            t = IntK.unwrap(i)
            t = z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t > n, n, t))
            return t
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            lo, hi = idx(k.start, z3.IntVal(0)), idx(k.stop, n)
            ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return StrK.wrap(z3.SubString(self.term, lo, ln))
        t = IntK.unwrap(k)
        t2 = z3.If(t < 0, n + t, t)
        if not core.cur().branch(z3.And(t2 >= 0, t2 < n)):
            raise IndexError('string index out of range')
        return StrK.wrap(z3.SubString(self.term, t2, 1))


class SymAny(Proxy):
    """A value of unknown type: None, bool, int, float, str or an object."""
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def resolve(self):
        e = core.cur()
        t = self.term
        if e.branch(AnyS.is_none(t)):
            return None
        if e.branch(AnyS.is_str(t)):
            return StrK.wrap(AnyS.s(t))
        if e.branch(AnyS.is_ref(t)):
            return RefK.wrap(AnyS.o(t))
        if e.branch(AnyS.is_bool(t)):
            return BoolK.wrap(AnyS.b(t))
        if e.branch(AnyS.is_int(t)):
            return IntK.wrap(AnyS.i(t))
        e.assume(AnyS.is_real(t))
        return RealK.wrap(AnyS.r(t))

    @property
    def __class__(self):
        return type_of(self.resolve())

    def __bool__(self):
        return bool(self.resolve())

    def __eq__(self, o):
        if isinstance(type(o), type) and type(o) is SymAny:
            return BoolK.wrap(self.term == o.term)
        if o is None:
            return BoolK.wrap(AnyS.is_none(self.term))
        if type(o) in (str, SymStr):
            return BoolK.wrap(self.term == AnyK.unwrap(o))
        return self.resolve() == o

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = Proxy.__hash__

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.resolve(), name)

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)

    def __add__(self, o): return self.resolve() + o
    def __radd__(self, o): return o + self.resolve()
    def __sub__(self, o): return self.resolve() - o
    def __lt__(self, o): return self.resolve() < o
    def __le__(self, o): return self.resolve() <= o
    def __gt__(self, o): return self.resolve() > o
    def __ge__(self, o): return self.resolve() >= o

    def __iter__(self):
        return iter(self.resolve())

    def __str__(self):
        raise Unsupported('implicit str() of a symbolic value')

    __format__ = lambda self, s: self.__str__()

    def __repr__(self):
        return '<SymAny %s>' % self.term


def type_of(v):
    """type(v) as the program sees it."""
    if isinstance(type(v), type) and issubclass(type(v), (Proxy, ObjProxy, VList, VDict, VSet)):
        return v.__class__
    return type(v)


class ObjProxy:
    """A symbolic object.  Subclasses in the contracts give it behaviour; identity is the term."""
    _kind = None
    py_class = None

    def __init__(self, term):
        self.term = term

    @property
    def __class__(self):
        return type(self).py_class or type(self)

    def __eq__(self, o):
        if o is self:
            return True
        if o is None or isinstance(o, (str, bool, int, float)):
            return False
        return BoolK.wrap(self.term == ref_of(o))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic object')

    def __str__(self):
        raise Unsupported('str of a symbolic object')

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.term)

    def __bool__(self):
        return True


# ---------------------------------------------------------------- sequences
def seq_parts(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out.extend(seq_parts(c))
        return out
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return []
    return [t]


def seq_cat(parts, sort):
    parts = [p for p in parts if not (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]
    if not parts:
        return z3.Empty(sort)
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


class VList:
    """A list, deque or tuple: a Python list of values, or a z3 sequence."""

    def __init__(self, items=None, kind=None, term=None, cls=list):
        self.items = list(items) if items is not None else (None if term is not None else [])
        self.kind = kind
        self.term = term
        self.cls = cls
        self.frozen = cls is tuple
        if core.active():
            track(self)

    @property
    def __class__(self):
        return self.cls

    @property
    def symbolic(self):
        return self.items is None

    def vc_copy(self, cls=list):
        return VList(items=self.items, kind=self.kind, term=self.term, cls=cls)

    def guess_kind(self):
        k = self.kind
        for x in self.items or ():
            k = unify(k, kind_of(x))
        return k

    def as_term(self, kind=None):
        if self.items is None:
            if kind is not None and kind.sort != self.kind.sort:
                raise Unsupported('sequence of %s used as %s' % (self.kind, kind))
            return self.term
        kind = kind or self.guess_kind()
        if kind is None:
            return None
        return seq_cat([z3.Unit(kind.unwrap(x)) for x in self.items], z3.SeqSort(kind.sort))

    def make_symbolic(self, kind=None):
        if self.items is not None:
            kind = kind or self.guess_kind()
            if kind is None:
                raise Unsupported('element kind of a sequence is unknown')
            self.term = self.as_term(kind)
            self.kind = kind
            self.items = None

    def vc_havoc(self, hint):
        k = self.kind if self.items is None else (unify(self.guess_kind(), hint))
        if k is None:
            raise Unsupported('element kind of a havocked sequence is unknown')
        self.items = None
        self.kind = k
        self.term = core.cur().fresh('seq', z3.SeqSort(k.sort))

    def _w(self, v=None, has=False):
        if self.frozen:
            if isinstance(self.frozen, str):
                core.cur().prove(self.frozen, False)
            raise AttributeError('tuple is immutable')
        log_write(self, None, kind_of(v) if has else self.kind)

    def length(self):
        return len(self.items) if self.items is not None else IntK.wrap(z3.Length(self.term))

    def __len__(self):
        if self.items is None:
            raise Unsupported('len() of a symbolic sequence outside a modelled call')
        return len(self.items)

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return core.cur().branch(z3.Length(self.term) > 0)

    def __iter__(self):
        if self.items is None:
            raise Unsupported('native iteration over a symbolic sequence')
        return self._live()

    def _live(self):
        i = 0
        n = len(self.items)
        while i < len(self.items):
            if self.cls is not list and self.cls is not tuple and len(self.items) != n:
                raise RuntimeError('deque mutated during iteration')
            yield self.items[i]
            i += 1
            if self.items is None:
                raise Unsupported('sequence became symbolic during iteration')

    def __reversed__(self):
        return iter(list(self.items)[::-1])

    # -- mutation
    def append(self, v):
        self._w(v, True)
        if self.items is not None:
            self.items.append(v)
        else:
            self.term = seq_cat(seq_parts(self.term) + [z3.Unit(self.kind.unwrap(v))], self.term.sort())

    def appendleft(self, v):
        self._w(v, True)
        if self.items is not None:
            self.items.insert(0, v)
        else:
            self.term = seq_cat([z3.Unit(self.kind.unwrap(v))] + seq_parts(self.term), self.term.sort())

    def insert(self, i, v):
        if self.items is not None and isinstance(i, int):
            self._w(v, True)
            self.items.insert(i, v)
        elif isinstance(i, int) and i == 0:
            self.appendleft(v)
        else:
            raise Unsupported('insert at a position in a symbolic sequence')

    def extend(self, o):
        from . import rt
        o = rt.to_vlist(o)
        self._w()
        if self.items is not None and o.items is not None:
            for x in o.items:
                self._w(x, True)
            self.items.extend(o.items)
            return
        kind = o.kind if self.items is not None and not self.items else self.kind
        if o.items is not None and not o.items:
            return
        if kind is None:
            kind = self.guess_kind()
        log_write(self, None, kind)
        self.make_symbolic(kind)
        self.term = seq_cat(seq_parts(self.term) + seq_parts(o.as_term(self.kind)), self.term.sort())

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (VList, list, tuple)):
            return NotImplemented
        r = self.vc_copy(self.cls)
        fr, r.frozen = r.frozen, False
        r.extend(o)
        r.frozen = fr
        return r

    def __radd__(self, o):
        if not isinstance(o, (list, tuple)):
            return NotImplemented
        return VList(list(o), cls=self.cls) + self

    def clear(self):
        self._w()
        if self.items is not None:
            self.items.clear()
        else:
            self.term = z3.Empty(self.term.sort())

    def pop(self, i=-1):
        self._w()
        if self.items is not None:
            return self.items.pop(i)
        parts = seq_parts(z3.simplify(self.term))
        e = core.cur()
        sort = self.term.sort()
        if i == -1:
            if parts and parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                self.term = seq_cat(parts[:-1], sort)
                return self.kind.wrap(parts[-1].arg(0))
            n = z3.Length(self.term)
            if not e.branch(n > 0):
                raise IndexError('pop from empty list')
            x = self.term[n - 1]
            self.term = z3.SubSeq(self.term, 0, n - 1)
            return self.kind.wrap(x)
        if i == 0:
            if parts and parts[0].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                self.term = seq_cat(parts[1:], sort)
                return self.kind.wrap(parts[0].arg(0))
            n = z3.Length(self.term)
            if not e.branch(n > 0):
                raise IndexError('pop from empty list')
            x = self.term[z3.IntVal(0)]
            self.term = z3.SubSeq(self.term, 1, n - 1)
            return self.kind.wrap(x)
        raise Unsupported('pop at a position of a symbolic sequence')

    def popleft(self):
        return self.pop(0)

    def remove(self, v):
        self._w()
        if self.items is not None:
            for i, x in enumerate(self.items):
                if x is v or bool(x == v):
                    del self.items[i]
                    return
            raise ValueError('%s.remove(x): x not in %s' % (self.cls.__name__, self.cls.__name__))
        u = z3.Unit(self.kind.unwrap(v))
        e = core.cur()
        if not e.branch(z3.Contains(self.term, u)):
            raise ValueError('deque.remove(x): x not in deque')
        i = e.fresh('idx', IntS)
        n = z3.Length(self.term)
        # first occurrence
        pre, suf = e.fresh('pre', self.term.sort()), e.fresh('suf', self.term.sort())
        e.assume(self.term == z3.Concat(pre, u, suf))
        e.assume(z3.Not(z3.Contains(pre, u)))
        e.assume(i == z3.Length(pre))
        self.removed = (pre, u, suf)
        self.term = z3.Concat(pre, suf)

    def copy(self):
        return self.vc_copy(self.cls)

    def index(self, v, *a):
        if self.items is None or a:
            raise Unsupported('index on a symbolic sequence')
        for i, x in enumerate(self.items):
            if x is v or bool(x == v):
                return i
        raise ValueError('not in list')

    def count(self, v):
        if self.items is None:
            raise Unsupported('count on a symbolic sequence')
        return sum(1 for x in self.items if x is v or bool(x == v))

    def reverse(self):
        self._w()
        if self.items is None:
            raise Unsupported('reverse of a symbolic sequence')
        self.items.reverse()

    def sort(self, **k):
        raise Unsupported('sort')

    def rotate(self, n=1):
        raise Unsupported('rotate')

    def vc_contains(self, v):
        if self.items is not None:
            for x in self.items:
                if x is v or bool(x == v):
                    return True
            return False
        try:
            u = self.kind.unwrap(v)
        except KindError:
            return False
        return BoolK.wrap(z3.Contains(self.term, z3.Unit(u)))

    def __contains__(self, v):
        return bool(self.vc_contains(v))

    def vc_getitem(self, k):
        if isinstance(k, SymAny):
            k = k.resolve()
        if self.items is not None and isinstance(k, (int, slice)) and not isinstance(k, SymNum) and \
                not (isinstance(k, slice) and any(isinstance(z, SymNum) for z in (k.start, k.stop, k.step))):
            r = self.items[k]
            return VList(r, kind=self.kind, cls=self.cls) if isinstance(k, slice) else r
        e = core.cur()
        self_t = self.as_term()
        n = z3.Length(self_t)
        kind = self.kind or self.guess_kind()
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice with step of a symbolic sequence')

            def idx(i, d):
                if i is None:
                    return d
                t = IntK.unwrap(i)
                return z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t > n, n, t))
            lo, hi = idx(k.start, z3.IntVal(0)), idx(k.stop, n)
            t = z3.SubSeq(self_t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return VList(kind=kind, term=z3.simplify(t), cls=self.cls)
        t = IntK.unwrap(k)
        t2 = z3.simplify(z3.If(t < 0, n + t, t))
        if not e.branch(z3.And(t2 >= 0, t2 < n)):
            raise IndexError('list index out of range')
        return kind.wrap(self_t[t2])

    def __getitem__(self, k):
        return self.vc_getitem(k)

    def __setitem__(self, k, v):
        self._w(v, True)
        if self.items is not None and self._native(k):
            self.items[k] = v
            return
        self._replace(k, v)

    def __delitem__(self, k):
        self._w()
        if self.items is not None and self._native(k):
            del self.items[k]
            return
        self._replace(k)

    @staticmethod
    def _native(k):
        return isinstance(k, (int, slice)) and not isinstance(k, SymNum) and \
            not (isinstance(k, slice) and any(isinstance(z, SymNum) for z in (k.start, k.stop, k.step)))

    def _replace(self, k, *v):
        """Put v (an element for an index, a sequence for a slice; nothing to delete) where k is."""
        if isinstance(k, SymAny):
            k = k.resolve()
        kind = self.kind or self.guess_kind()
        t = self.as_term(kind)
        n = z3.Length(t)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice with step of a symbolic sequence')

            def idx(i, d):
                if i is None:
                    return d
                i = IntK.unwrap(i)
                return z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))
            lo, hi = idx(k.start, z3.IntVal(0)), idx(k.stop, n)
            hi = z3.If(hi > lo, hi, lo)
            from . import rt
            mid = [rt.to_vlist(x).as_term(kind) for x in v]
        else:
            lo = IntK.unwrap(k)
            lo = z3.simplify(z3.If(lo < 0, n + lo, lo))
            if not core.cur().branch(z3.And(lo >= 0, lo < n)):
                raise IndexError('list index out of range')
            hi = lo + 1
            mid = [z3.Unit(kind.unwrap(x)) for x in v]
        r = z3.simplify(z3.Concat(z3.SubSeq(t, 0, lo), *mid, z3.SubSeq(t, hi, n - hi)))
        self.items, self.kind, self.term = None, kind, r

    def __eq__(self, o):
        if isinstance(o, VList):
            if (self.cls is tuple) != (o.cls is tuple):
                return False
            if self.items is not None and o.items is not None:
                if len(self.items) != len(o.items):
                    return False
                r = z3.BoolVal(True)
                for a, b in zip(self.items, o.items):
                    q = True if a is b else (a == b)
                    r = z3.And(r, lift(q))
                return BoolK.wrap(r)
            if self.items is not None and not self.items:
                return BoolK.wrap(z3.Length(o.term) == 0)
            if o.items is not None and not o.items:
                return BoolK.wrap(z3.Length(self.term) == 0)
            k = self.kind if self.items is None else o.kind
            return BoolK.wrap(self.as_term(k) == o.as_term(k))
        if isinstance(o, (list, tuple)):
            return self == VList(list(o), cls=type(o))
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        if self.cls is tuple and self.items is not None:
            return hash(tuple(self.items))
        raise TypeError("unhashable type: 'list'")

    def __str__(self):
        raise Unsupported('str of a symbolic sequence')

    def __repr__(self):
        return '<VList %s>' % (self.items if self.items is not None else self.term)


# ---------------------------------------------------------------- mappings
class VDict:
    """A mapping: a Python dict, or presence and value arrays."""

    def __init__(self, items=None, kk=None, kv=None, pres=None, val=None, cls=dict):
        self.items_ = dict(items) if items is not None else (None if pres is not None else {})
        self.kk, self.kv, self.pres, self.val = kk, kv, pres, val
        self.cls = cls
        self.order = None
        if core.active():
            track(self)

    @property
    def __class__(self):
        return self.cls

    @property
    def symbolic(self):
        return self.items_ is None

    @staticmethod
    def fresh(name, kk, kv, cls=dict):
        e = core.cur()
        return VDict(kk=kk, kv=kv, pres=e.fresh(name + '.pres', z3.ArraySort(kk.sort, BoolS)),
                     val=e.fresh(name + '.val', z3.ArraySort(kk.sort, kv.sort)), cls=cls)

    def vc_copy(self, cls=None):
        d = VDict(items=self.items_, kk=self.kk, kv=self.kv, pres=self.pres, val=self.val,
                  cls=cls or self.cls)
        d.order = self.order
        return d

    def _w(self, k=None, v=None, has=False):
        self.order = None
        log_write(self, None, (kind_of(k), kind_of(v)) if has else
                  ((self.kk, self.kv) if self.kk is not None else None))

    def kinds(self, hint=None):
        if self.items_ is None:
            return self.kk, self.kv
        kk, kv = self.kk, self.kv
        for k, v in self.items_.items():
            kk, kv = unify(kk, kind_of(k)), unify(kv, kind_of(v))
        if hint:
            kk, kv = unify(kk, hint[0]), unify(kv, hint[1])
        return kk, kv

    def make_symbolic(self, hint=None):
        if self.items_ is None:
            return
        kk, kv = self.kinds(hint)
        if kk is None or kv is None:
            raise Unsupported('kinds of a mapping are unknown')
        self.pres, self.val = self.arrays(kk, kv)
        self.kk, self.kv = kk, kv
        self.items_ = None

    def arrays(self, kk=None, kv=None):
        if self.items_ is None:
            return self.pres, self.val
        if kk is None:
            kk, kv = self.kinds()
        if kk is None or kv is None:
            raise Unsupported('kinds of a mapping are unknown')
        pres = z3.K(kk.sort, z3.BoolVal(False))
        val = default_array(kk, kv)
        for k, v in self.items_.items():
            pres = z3.Store(pres, kk.unwrap(k), z3.BoolVal(True))
            val = z3.Store(val, kk.unwrap(k), kv.unwrap(v))
        return pres, val

    def vc_havoc(self, hint):
        if self.items_ is not None:
            kk, kv = self.kinds(hint)
            if kk is None:
                raise Unsupported('kinds of a havocked mapping are unknown')
            self.kk, self.kv = kk, kv
            self.items_ = None
        e = core.cur()
        self.order = None
        self.pres = e.fresh('dpres', z3.ArraySort(self.kk.sort, BoolS))
        self.val = e.fresh('dval', z3.ArraySort(self.kk.sort, self.kv.sort))

    # -- access
    def has(self, k):
        if self.items_ is not None:
            if is_concrete_key(k):
                return k in self.items_
            r = z3.BoolVal(False)
            for x in self.items_:
                q = (x == k)
                if q is NotImplemented:
                    q = False
                r = z3.Or(r, lift(q))
            return BoolK.wrap(r)
        try:
            return BoolK.wrap(z3.Select(self.pres, self.kk.unwrap(k)))
        except KindError:
            return False

    def at(self, k):
        if self.items_ is not None:
            if is_concrete_key(k):
                return self.items_[k]
            for x in self.items_:
                if bool(x == k):
                    return self.items_[x]
            raise KeyError(k)
        return self.kv.wrap(z3.Select(self.val, self.kk.unwrap(k)))

    vc_contains = has

    def __contains__(self, k):
        return bool(self.has(k))

    def vc_getitem(self, k):
        if not bool(self.has(k)):
            raise KeyError('<symbolic key>')
        return self.at(k)

    __getitem__ = vc_getitem

    def get(self, k, default=None):
        if bool(self.has(k)):
            return self.at(k)
        return default

    def __setitem__(self, k, v):
        self._w(k, v, True)
        if self.items_ is not None and is_concrete_key(k) and \
                all(is_concrete_key(x) for x in self.items_):
            self.items_[k] = v
            return
        self.make_symbolic((kind_of(k), kind_of(v)))
        kt = self.kk.unwrap(k)
        self.pres = z3.Store(self.pres, kt, z3.BoolVal(True))
        self.val = z3.Store(self.val, kt, self.kv.unwrap(v))

    def __delitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError('<symbolic key>')
        self._w()
        if self.items_ is not None and is_concrete_key(k):
            del self.items_[k]
            return
        self.make_symbolic((kind_of(k), None))
        self.pres = z3.Store(self.pres, self.kk.unwrap(k), z3.BoolVal(False))

    def pop(self, k, *default):
        if not bool(self.has(k)):
            if default:
                return default[0]
            raise KeyError('<symbolic key>')
        v = self.at(k)
        self.__delitem__(k)
        return v

    def setdefault(self, k, default=None):
        if not bool(self.has(k)):
            self[k] = default
            return default
        return self.at(k)

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, ItemsOf):
                o = o.d
            if isinstance(o, VDict):
                if o.items_ is not None:
                    for k, v in list(o.items_.items()):
                        self[k] = v
                else:
                    self._w()
                    log_write(self, None, (o.kk, o.kv))
                    if self.items_ is not None and not self.items_:
                        self.items_, self.kk, self.kv = None, o.kk, o.kv
                        self.pres, self.val = o.pres, o.val
                        self.order = o.order
                        continue
                    self.make_symbolic((o.kk, o.kv))
                    if self.kk.sort != o.kk.sort or self.kv.sort != o.kv.sort:
                        raise Unsupported('update with a mapping of other kinds')
                    q = z3.Const('q', self.kk.sort)
                    pres = z3.Lambda([q], z3.Or(o.pres[q], self.pres[q]))
                    val = z3.Lambda([q], z3.If(o.pres[q], o.val[q], self.val[q]))
                    self.pres, self.val = pres, val
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            else:
                from . import rt
                for pair in rt.to_vlist(o):
                    self[pair[0]] = pair[1]
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._w()
        if self.items_ is not None:
            self.items_.clear()
        else:
            self.pres = z3.K(self.kk.sort, z3.BoolVal(False))

    def copy(self):
        return self.vc_copy(dict)

    def _keyseq(self):
        if self.order is not None:
            return self.order
        raise Unsupported('iteration over a symbolic mapping')

    def keys(self):
        if self.items_ is not None:
            return VList(list(self.items_.keys()))
        if self.order is None:
            return OpaqueIter(self.kk, self.pres)
        s = self._keyseq()
        return s.vmap(lambda t: t[0], self.kk)

    def values(self):
        if self.items_ is not None:
            return VList(list(self.items_.values()))
        return self._keyseq().vmap(lambda t: t[1], self.kv)

    def items(self):
        if self.items_ is not None:
            return VList([(k, v) for k, v in self.items_.items()])
        return self._keyseq() if self.order is not None else ItemsOf(self)

    def __iter__(self):
        if self.items_ is None:
            raise Unsupported('iteration over a symbolic mapping')
        return iter(list(self.items_))

    def length(self):
        if self.items_ is not None:
            return len(self.items_)
        if self.order is not None:
            return self.order.length()
        # the number of entries: a function of the set of keys, nothing else is known about it
        n = uf('card', self.pres.sort(), IntS)(self.pres)
        core.cur().assume(n >= 0)
        k = core.cur().fresh('key', self.pres.sort().domain())
        core.cur().assume(z3.ForAll([k], z3.Implies(z3.Select(self.pres, k), n > 0)))
        return IntK.wrap(n)

    def __len__(self):
        if self.items_ is not None:
            return len(self.items_)
        raise Unsupported('len of a symbolic mapping')

    def __bool__(self):
        if self.items_ is not None:
            return bool(self.items_)
        if self.order is not None:
            return bool(self.order)
        return core.cur().branch(self.pres != z3.K(self.kk.sort, z3.BoolVal(False)))

    def eq(self, o):
        """Extensional equality as a term (a fresh key stands for all keys)."""
        if not isinstance(o, VDict):
            o = VDict(items=o)
        kk, kv = self.kinds()
        k2, v2 = o.kinds()
        kk, kv = (unify(kk, k2), unify(kv, v2))
        if kk is None:
            return z3.BoolVal(True)
        p1, a1 = self.arrays(kk, kv)
        p2, a2 = o.arrays(kk, kv)
        q = core.cur().fresh('key', kk.sort)
        return z3.And(p1[q] == p2[q], z3.Implies(p1[q], a1[q] == a2[q]))

    def __eq__(self, o):
        if isinstance(o, (VDict, dict)):
            if self.items_ is not None and (isinstance(o, dict) and not isinstance(o, VDict) or
                                            isinstance(o, VDict) and o.items_ is not None):
                oi = o.items_ if isinstance(o, VDict) else o
                if set(map(repr, self.items_)) != set(map(repr, oi)):
                    return False
                r = z3.BoolVal(True)
                for k in self.items_:
                    r = z3.And(r, lift(self.items_[k] == oi[k]))
                return BoolK.wrap(r)
            raise Unsupported('equality of symbolic mappings in program text')
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = None

    def __repr__(self):
        return '<VDict %s>' % (self.items_ if self.items_ is not None else 'symbolic')

    def __str__(self):
        raise Unsupported('str of a symbolic mapping')


def default_array(kk, kv):
    return z3.Const('default.%s.%s' % (kk.sort, kv.sort), z3.ArraySort(kk.sort, kv.sort))


def is_concrete_key(k):
    if isinstance(k, tuple):
        return all(is_concrete_key(x) for x in k)
    return not (type(k) in (SymStr, SymNum, SymBool, SymAny) or isinstance(k, ObjProxy) or
                (isinstance(k, VList) and k.items is None))


class VSet:
    """A set: a Python set of concrete values, or a membership array."""
    __hash__ = None

    def __init__(self, items=(), kind=None, arr=None):
        self.items = set(items) if arr is None else None
        self.kind, self.arr = kind, arr
        if core.active():
            track(self)

    @property
    def __class__(self):
        return set

    @property
    def symbolic(self):
        return self.items is None

    def copy(self):
        return VSet(self.items or (), self.kind, self.arr)

    def guess_kind(self, hint=None):
        k = unify(self.kind, hint)
        for x in self.items or ():
            k = unify(k, kind_of(x))
        return k

    def as_term(self, kind=None):
        if self.items is None:
            if kind is not None and kind.sort != self.kind.sort:
                raise Unsupported('set of %s used as %s' % (self.kind, kind))
            return self.arr
        kind = kind or self.guess_kind()
        if kind is None:
            return None
        a = z3.K(kind.sort, z3.BoolVal(False))
        for x in sorted(self.items, key=repr):
            a = z3.Store(a, kind.unwrap(x), z3.BoolVal(True))
        return a

    def vc_havoc(self, hint):
        k = self.guess_kind(hint)
        if k is None:
            raise Unsupported('element kind of a havocked set is unknown')
        self.items, self.kind = None, k
        self.arr = core.cur().fresh('set', z3.ArraySort(k.sort, BoolS))

    def _w(self, v=None, has=False):
        log_write(self, None, kind_of(v) if has else self.kind)

    def _sym(self, hint=None):
        if self.items is not None:
            k = self.guess_kind(hint)
            if k is None:
                raise Unsupported('element kind of a set is unknown')
            self.arr, self.kind, self.items = self.as_term(k), k, None

    def add(self, v):
        self._w(v, True)
        if self.items is not None and is_concrete_key(v):
            self.items.add(v)
            return
        self._sym(kind_of(v))
        self.arr = z3.Store(self.arr, self.kind.unwrap(v), z3.BoolVal(True))

    def discard(self, v):
        self._w(v, True)
        if self.items is not None and is_concrete_key(v):
            self.items.discard(v)
            return
        self._sym(kind_of(v))
        self.arr = z3.Store(self.arr, self.kind.unwrap(v), z3.BoolVal(False))

    def remove(self, v):
        if not bool(self.vc_contains(v)):
            raise KeyError('<symbolic element>')
        self.discard(v)

    def clear(self):
        self._w()
        if self.items is not None:
            self.items.clear()
        else:
            self.arr = z3.K(self.kind.sort, z3.BoolVal(False))

    def update(self, *os):
        for o in os:
            self._assign(self._bin(o, z3.SetUnion, set.union))

    def _assign(self, r):
        self._w()
        self.items, self.kind, self.arr = r.items, r.kind, r.arr

    def vc_contains(self, v):
        if self.items is not None and is_concrete_key(v):
            return v in self.items
        if self.items is not None:
            return BoolK.wrap(z3.Or([z3.BoolVal(False)] + [lift(x == v) for x in self.items if (x == v) is not NotImplemented]))
        try:
            return BoolK.wrap(z3.Select(self.arr, self.kind.unwrap(v)))
        except KindError:
            return False

    def __contains__(self, v):
        return bool(self.vc_contains(v))

    def _other(self, o):
        if isinstance(o, SymAny):
            o = o.resolve()
        if type(o) is VSet:
            return o
        if type(o) in (set, frozenset):
            return VSet(o)
        from . import rt
        return rt.m_set(o)

    def _bin(self, o, f, g):
        o = self._other(o)
        if self.items is not None and o.items is not None:
            return VSet(g(self.items, o.items))
        k = self.guess_kind(o.guess_kind())
        return VSet(kind=k, arr=f(self.as_term(k), o.as_term(k)))

    def union(self, *os):
        r = self
        for o in os:
            r = r._bin(o, z3.SetUnion, set.union)
        return r

    def intersection(self, o): return self._bin(o, z3.SetIntersect, set.intersection)
    def difference(self, o): return self._bin(o, z3.SetDifference, set.difference)
    def __or__(self, o): return self._bin(o, z3.SetUnion, set.union)
    def __and__(self, o): return self._bin(o, z3.SetIntersect, set.intersection)
    def __sub__(self, o): return self._bin(o, z3.SetDifference, set.difference)

    def __rsub__(self, o):
        return self._other(o) - self

    __ror__, __rand__ = __or__, __and__

    def __ior__(self, o):
        self._assign(self | o)
        return self

    def __isub__(self, o):
        self._assign(self - o)
        return self

    def _rel(self, o, f, g):
        o = self._other(o)
        if self.items is not None and o.items is not None:
            return g(self.items, o.items)
        k = self.guess_kind(o.guess_kind())
        return BoolK.wrap(f(self.as_term(k), o.as_term(k)))

    def issubset(self, o): return self._rel(o, _subset, set.issubset)
    def __le__(self, o): return self.issubset(o)
    def issuperset(self, o): return self._other(o).issubset(self)
    def __ge__(self, o): return self.issuperset(o)

    def isdisjoint(self, o):
        return neg((self & o).nonempty())

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return self._rel(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def nonempty(self):
        if self.items is not None:
            return bool(self.items)
        return BoolK.wrap(self.arr != z3.K(self.kind.sort, z3.BoolVal(False)))

    def __bool__(self):
        return bool(self.nonempty())

    def length(self):
        if self.items is not None:
            return len(self.items)
        return VDict(kk=self.kind, kv=BoolK, pres=self.arr, val=default_array(self.kind, BoolK)).length()

    def __len__(self):
        if self.items is None:
            raise Unsupported('len() of a symbolic set outside a modelled call')
        return len(self.items)

    def __iter__(self):
        if self.items is None:
            return iter(self.members())
        return iter(self.items)

    def members(self):
        """The elements of a set built by adding symbolic elements, in an arbitrary order."""
        out, a = [], self.arr
        while z3.is_store(a) and z3.is_true(a.arg(2)) and len(out) < 4:
            out.append(a.arg(1))
            a = a.arg(0)
        if not (z3.is_const_array(a) and z3.is_false(a.arg(0))):
            raise Unsupported('iteration over a symbolic set')
        e = core.cur()
        distinct = []
        for t in out:
            if not any(e.branch(t == u) for u in distinct):
                distinct.append(t)
        order = []
        while distinct:
            order.append(distinct.pop(e.choice(len(distinct), 'order') if len(distinct) > 1 else 0))
        return [self.kind.wrap(t) for t in order]

    def __repr__(self):
        return '<VSet %s>' % (self.items if self.items is not None else 'symbolic')

    def __str__(self):
        raise Unsupported('str of a symbolic set')


def _subset(a, b):
    """Set inclusion without quantifiers: nothing is in a but not in b."""
    return z3.SetDifference(a, b) == z3.K(a.sort().domain(), z3.BoolVal(False))


class VIter:
    """Something iterable with a symbolic number of elements."""

    def __init__(self, n, at, src=None, once=None):
        self.n, self.at_, self.src = n, at, src
        self.once = once            # an iterator over this VList
        self.used = None            # 'partly' or 'up'

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic iterable')


class OpaqueIter:
    """Keys of an unordered symbolic mapping: only good for message texts, and as a set."""

    def __init__(self, kind=None, pres=None):
        self.kind, self.pres = kind, pres

    def __iter__(self):
        raise Unsupported('iteration over a symbolic mapping')


class ItemsOf(OpaqueIter):
    """Names and values of an unordered symbolic mapping."""

    def __init__(self, d):
        OpaqueIter.__init__(self)
        self.d = d


def _vmap(self, f, kind):
    base = self
    return VIter(z3.Length(self.term), lambda k: f(base.kind.wrap(base.term[k])), base)


VList.vmap = _vmap


# ---------------------------------------------------------------- loop cells
def scalar_kind(v):
    t = type(v)
    if t in (bool, SymBool):
        return 'bool'
    if t is int:
        return 'int'
    if t is SymNum:
        return 'int' if v.term.sort() == IntS else 'real'
    if t is float:
        return 'real'
    if t in (str, SymStr):
        return 'str'
    if v is None or t is SymAny:
        return 'any'
    if isinstance(v, VList):
        return 'seq'
    return None


def any_ok(v):
    return v is None or type(v) in (bool, int, float, str, SymBool, SymNum, SymStr, SymAny) or \
        isinstance(v, ObjProxy)


_scalar = {'bool': BoolK, 'int': IntK, 'real': RealK, 'str': StrK, 'any': AnyK}


def havoc_scalar(name, v, hint):
    e = core.cur()
    if hint == 'drop':
        return UNBOUND
    if hint == 'any':
        return AnyK.wrap(e.fresh(name, AnyS))
    k = scalar_kind(v)
    if k == 'seq':
        kd = v.kind if v.items is None else unify(v.guess_kind(), hint if isinstance(hint, Kind) else None)
        if kd is None:
            # empty so far; SymLoop records the kind as soon as an iteration puts something in
            return VList([], cls=v.cls)
        return VList(kind=kd, term=e.fresh(name, z3.SeqSort(kd.sort)), cls=v.cls)
    if k in _scalar:
        hk = hint if isinstance(hint, Kind) else None
        if hk is not None and unify(_scalar[k], hk) is AnyK:
            return AnyK.wrap(e.fresh(name, AnyS))
        return _scalar[k].wrap(e.fresh(name, _scalar[k].sort))
    if any_ok(v):
        return AnyK.wrap(e.fresh(name, AnyS))
    raise Unsupported('cannot havoc a value of type %s (%s)' % (type(v).__name__, name))


def cell_term(v, hint):
    """Term (or tuple of terms) of a cell's value, or None if it has none."""
    try:
        if hint == 'drop':
            return None
        if type(v) is SymAny:
            return v.term            # not resolved: that would be a case split
        if hint == 'any':
            return AnyK.unwrap(v)
        if type(v) is VSet:
            return v.as_term(v.guess_kind(hint if isinstance(hint, Kind) else None))
        if isinstance(v, VDict):
            if v.items_ is not None:
                kk, kv = v.kinds(hint if isinstance(hint, tuple) else None)
                if kk is None:
                    return None
                return v.arrays(kk, kv)
            return (v.pres, v.val)
        if isinstance(v, VList):
            hk = hint if isinstance(hint, Kind) else None
            if v.items is not None:
                k = unify(v.guess_kind(), hk)
                return v.as_term(k) if k is not None else None
            return v.term
        k = scalar_kind(v)
        if k in _scalar:
            hk = hint if isinstance(hint, Kind) else None
            if hk is not None and unify(_scalar[k], hk) is AnyK:
                return AnyK.unwrap(v)
            return _scalar[k].unwrap(v)
        if isinstance(v, ObjProxy):
            return AnyK.unwrap(v)
    except Unsupported:
        return None
    return None


def cell_candidates(cname, t, t0, k, specs):
    out = []
    if isinstance(t, tuple):
        if t0 is not None and all(a.sort() == b.sort() for a, b in zip(t, t0)):
            out.append((cname + ' unchanged', z3.And(*[a == b for a, b in zip(t, t0)])))
        for sp in specs:
            v = sp.at(k)
            if isinstance(v, tuple) and all(a.sort() == b.sort() for a, b in zip(t, v)):
                out.append(('%s == %s(k)' % (cname, sp.name), z3.And(*[a == b for a, b in zip(t, v)])))
        return out
    s = t.sort()
    if t0 is not None and not isinstance(t0, tuple) and t0.sort() == s:
        out.append((cname + ' unchanged', t == t0))
        if s == IntS:
            out.append((cname + ' == init + k', t == t0 + k))
            out.append((cname + ' == init - k', t == t0 - k))
            out.append((cname + ' >= init', t >= t0))
    for sp in specs:
        v = sp.at(k)
        if isinstance(v, tuple) or v is None or v.sort() != s:
            continue
        out.append(('%s == %s(k)' % (cname, sp.name), t == v))
        if s == BoolS:
            out.append(('%s != %s(k)' % (cname, sp.name), t == z3.Not(v)))
        if t0 is not None and (z3.is_seq(t) or z3.is_string(t)) and t0.sort() == s:
            out.append(('%s == init ++ %s(k)' % (cname, sp.name), t == z3.Concat(t0, v)))
        if s == IntS and t0 is not None:
            out.append(('%s == init + %s(k)' % (cname, sp.name), t == t0 + v))
    return out


# ---------------------------------------------------------------- spec folds
class Fold:
    """f(0) = init, f(k+1) = step(f(k), S[k]): a recursively defined spec function."""

    def __init__(self, name, seq, init, step, pure=False, sort=None):
        e = core.cur()
        self.name, self.seq, self.step_ = name, seq, step
        self.init = init
        self.sort = sort if sort is not None else init.sort()
        self.base = seq.as_term()
        self.is_pure = pure
        self.concrete = None
        if self.base is None or seq.items is not None:
            acc = init
            kind = seq.guess_kind()
            for x in seq.items:
                acc = step(acc, kind.unwrap(x))
            self.concrete = z3.simplify(acc)
            self.n = z3.IntVal(len(seq.items))
        else:
            self.f = z3.Function('%s!%d' % (name, len(e.path.specs)), IntS, self.sort)
            self.n = z3.Length(self.base)
            e.assume(self.f(0) == init)
            e.path.specs.append(self)

    def at(self, k):
        if self.concrete is not None:
            raise Unsupported('prefix of a concrete fold')
        return self.f(k)

    @property
    def full(self):
        return self.concrete if self.concrete is not None else self.f(self.n)

    def unfold(self, k, init=False, last=False):
        if init or last:
            return
        e = core.cur()
        e.assume(z3.Implies(z3.And(k >= 0, k < self.n),
                            self.f(k + 1) == self.step_(self.f(k), self.base[k])))

    def pure(self, k):
        if self.is_pure:
            return [('%s(k)' % self.name, self.f(k))]
        return []


class ForAllPrefix(Fold):
    """P(k) = for all i < k: p(S[i]); antitone lemma instantiated against the full length."""

    def __init__(self, name, seq, pred):
        super().__init__(name, seq, z3.BoolVal(True), lambda acc, x: z3.And(acc, pred(x)), pure=True)
        self.pred = pred

    def unfold(self, k, init=False, last=False):
        super().unfold(k, init, last)
        if not init and not last:
            e = core.cur()
            # forall i < n: full -> p(S[i]) and full -> P(i)   (consequences of the definition)
            e.assume(z3.Implies(z3.And(k >= 0, k < self.n, self.f(self.n)),
                                z3.And(self.pred(self.base[k]), self.f(k), self.f(k + 1))))


class MapFold(Fold):
    """M(k) = [g(S[0]), ..., g(S[k-1])], with the length/element lemma."""

    def __init__(self, name, seq, g, kind):
        self.g, self.kind = g, kind
        s = z3.SeqSort(kind.sort)
        super().__init__(name, seq, z3.Empty(s), lambda acc, x: z3.Concat(acc, z3.Unit(g(x))), sort=s)
        if self.concrete is None:
            core.cur().assume(z3.Length(self.f(self.n)) == self.n)

    def unfold(self, k, init=False, last=False):
        super().unfold(k, init, last)
        if not init:
            e = core.cur()
            e.assume(z3.Implies(z3.And(k >= 0, k <= self.n), z3.Length(self.f(k)) == k))
            if not last:
                e.assume(z3.Implies(z3.And(k >= 0, k < self.n),
                                    self.f(self.n)[k] == self.g(self.base[k])))

    @property
    def result(self):
        return VList(kind=self.kind, term=self.full)


class FilterFold(Fold):
    def __init__(self, name, seq, pred):
        super().__init__(name, seq, z3.Empty(z3.SeqSort(seq.kind.sort)),
                         lambda acc, x: z3.If(pred(x), z3.Concat(acc, z3.Unit(x)), acc))
        self.elem_kind = seq.kind

    @property
    def result(self):
        return VList(kind=self.elem_kind, term=self.full)


def filtered_folds(name, seq, pred, init, step):
    """Fold over S skipping elements, and the same fold over [x for x in S if pred(x)].

    Returns (filter fold, fold over S, fold over the filtered sequence); that the last two agree is
    the standard fold/filter fusion law, taken as a lemma.
    """
    f = FilterFold(name + '.filter', seq, pred)
    a = Fold(name, seq, init, lambda acc, x: z3.If(pred(x), step(acc, x), acc))
    b = Fold(name + '.filtered', f.result, init, step)
    core.cur().assume(a.full == b.full)
    q = ForAllPrefix(name + '.kept', f.result, pred)      # every kept element satisfies the predicate
    core.cur().assume(q.full)
    return f, a, b


class DictFold(Fold):
    """(pres, val) arrays folded over a sequence."""

    def __init__(self, name, seq, d0, step):
        e = core.cur()
        self.name, self.seq, self.step_ = name, seq, step
        self.kk, self.kv = d0.kinds()
        self.base = seq.as_term()
        self.is_pure = False
        p0, v0 = d0.arrays()
        self.concrete = None
        if seq.items is not None:
            raise Unsupported('DictFold over a concrete sequence')
        i = len(e.path.specs)
        self.fp = z3.Function('%s.pres!%d' % (name, i), IntS, p0.sort())
        self.fv = z3.Function('%s.val!%d' % (name, i), IntS, v0.sort())
        self.n = z3.Length(self.base)
        e.assume(self.fp(0) == p0)
        e.assume(self.fv(0) == v0)
        e.path.specs.append(self)

    def at(self, k):
        return (self.fp(k), self.fv(k))

    def unfold(self, k, init=False, last=False):
        if init or last:
            return
        e = core.cur()
        p, v = self.step_(self.fp(k), self.fv(k), self.base[k])
        e.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.fp(k + 1) == p, self.fv(k + 1) == v)))

    @property
    def result(self):
        return VDict(kk=self.kk, kv=self.kv, pres=self.fp(self.n), val=self.fv(self.n))


class MultiFold:
    """Several mutually dependent folds over one sequence; parts[i] is the spec of the i-th state component.

    A component is a term or a tuple of terms (arrays of a mapping).  stop(x) ends the fold after x.
    """

    def __init__(self, name, seq, inits, step, stop=None):
        e = core.cur()
        self.name, self.step_, self.stop = name, step, stop
        self.base = seq.as_term(seq.kind)
        self.n = z3.Length(self.base)
        self.shape = inits
        i = len(e.path.specs)
        self.parts = []
        for j, t in enumerate(inits):
            self.parts.append(_Part(self, '%s.%d' % (name, j), t, i))
        self.going = z3.Function('%s.going!%d' % (name, i), IntS, BoolS) if stop else None
        if stop:
            e.assume(self.going(0))
        e.path.specs.extend(self.parts)

    def state(self, k):
        return [p.at(k) for p in self.parts]

    @property
    def full(self):
        return self.state(self.n)

    def unfold(self, k):
        e = core.cur()
        cur = self.state(k)
        new = self.step_(cur, self.base[k])
        nxt = self.state(k + 1)
        eqs = [_same(a, b) for a, b in zip(nxt, new)]
        inr = z3.And(k >= 0, k < self.n)
        if self.stop is None:
            e.assume(z3.Implies(inr, z3.And(*eqs)))
            return
        e.assume(z3.Implies(z3.And(inr, self.going(k)), z3.And(*eqs)))
        e.assume(z3.Implies(inr, self.going(k + 1) == z3.And(self.going(k), z3.Not(self.stop(self.base[k])))))
        # once stopped the state is the final one (by induction on the definition)
        fin = [_same(a, b) for a, b in zip(self.state(self.n), nxt)]
        e.assume(z3.Implies(z3.And(inr, z3.Not(self.going(k + 1)), self.going(k)), z3.And(*fin)))


def _same(a, b):
    if isinstance(a, tuple):
        return z3.And(*[x == y for x, y in zip(a, b)])
    return a == b


class _Part:
    is_pure = False
    concrete = None

    def __init__(self, owner, name, init, i):
        self.owner, self.name = owner, name
        e = core.cur()
        ts = init if isinstance(init, tuple) else (init,)
        self.tup = isinstance(init, tuple)
        self.fs = [z3.Function('%s.%d!%d' % (name, j, i), IntS, t.sort()) for j, t in enumerate(ts)]
        for f, t in zip(self.fs, ts):
            e.assume(f(0) == t)

    def at(self, k):
        r = tuple(f(k) for f in self.fs)
        return r if self.tup else r[0]

    def unfold(self, k, init=False, last=False):
        if not init and not last and self is self.owner.parts[0]:
            self.owner.unfold(k)

    def pure(self, k):
        if self.owner.stop is not None and self is self.owner.parts[0]:
            return [('%s goes on' % self.name, self.owner.going(k))]
        return []


class JoinFold(Fold):
    """sep.join over the prefixes M(k) of a mapped sequence of strings."""

    def __init__(self, name, m, sep=''):
        e = core.cur()
        self.name, self.m, self.is_pure = name, m, False
        self.sep = sep if isinstance(sep, z3.ExprRef) else z3.StringVal(sep)
        self.empty_sep = z3.is_string_value(self.sep) and self.sep.as_string() == ''
        self.n = m.n
        self.sort = StrS
        self.concrete = None
        self.j = uf('join', StrS, m.sort, StrS)
        if m.concrete is not None:
            raise Unsupported('JoinFold over a concrete sequence')
        e.assume(self.j(self.sep, z3.Empty(m.sort)) == z3.StringVal(''))
        e.path.specs.append(self)

    def at(self, k):
        return self.j(self.sep, self.m.f(k))

    @property
    def full(self):
        return self.at(self.n)

    def unfold(self, k, init=False, last=False):
        if init or last:
            return
        x = self.m.g(self.m.base[k])
        cat = z3.Concat(self.at(k), x) if self.empty_sep else z3.Concat(self.at(k), self.sep, x)
        core.cur().assume(z3.Implies(
            z3.And(k >= 0, k < self.n),
            self.at(k + 1) == (cat if self.empty_sep else z3.If(k == 0, x, cat))))
