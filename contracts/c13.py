"""C13: typed values coming from text have the requested type or are rejected."""
from typing import List

import yaml

from .common import *
from launch.frontend import type_utils as frontend_types
from launch.substitution import Substitution
from launch.utilities import type_utils as T

M = 'launch.utilities.type_utils:'
IS = {int: AnyS.is_int, float: AnyS.is_real, bool: AnyS.is_bool, str: AnyS.is_str}
LISTS = {int: List[int], float: List[float], bool: List[bool], str: List[str]}
SCALARS = (int, float, bool, str)
ANY = ('values are None, bool, int, float, str (with subclasses left out), lists of those, substitutions or other objects', )
TEXT = ('int(text) and float(text): uninterpreted, ValueError where undefined',
        'yaml.safe_load(text): an uninterpreted reading of the text (an error, a scalar, a list or another object)')


class Other(SymObj):
    """Neither a scalar nor a list nor a substitution."""

    def vc_isinstance(self, c):
        return object in (c if isinstance(c, tuple) else (c,))


OtherK = ObjK('other', Other)


def pick_type(none=True):
    """A requested type: (type, scalar type or None, is a list type)."""
    n = choose(9 if none else 8)
    if n == 8:
        return None, None, False
    t = SCALARS[n % 4]
    return (LISTS[t] if n >= 4 else t), t, n >= 4


def ok(t, cbs):
    """A value of scalar type t, or a text if those are let through."""
    return (lambda x: Or(IS[t](x), IS[str](x))) if cbs else (lambda x: IS[t](x))


def fresh_value(name):
    """An arbitrary value: (value, its Any term or None, the sequence or None)."""
    E().path.refkind = OtherK
    if choose(2):
        s = fresh_seq(name, AnyK)
        return s, None, s
    v = fresh_any(name)
    return v, v.term, None


class Uniform:
    """Every member has one and the same scalar type (texts let through if cbs)."""

    def __init__(self, name, seq, cbs):
        self.by = {t: ForAllPrefix('%s.%s' % (name, t.__name__), seq, ok(t, cbs)) for t in SCALARS}
        self.text = ForAllPrefix(name + '.texts', seq, lambda x: AnyS.is_str(x))
        self.full = Or(*[p.full for p in self.by.values()])
        n = Length(seq.term)
        for p in list(self.by.values()) + [self.text]:
            # consequences of the definition for no member and for the first
            E().assume(Implies(n == 0, p.full))
        E().assume(Implies(self.text.full, self.by[str].full))
        if cbs:
            for t in SCALARS:
                E().assume(Implies(self.text.full, self.by[t].full))


def boolean(r):
    return lift(r) if isinstance(r, (bool, SymBool)) else z3.BoolVal(bool(r))


@unit('C13', [M + 'is_instance_of_valid_type', M + 'is_instance_of', M + '_is_scalar_instance'], assumes=ANY, budget=150)
def valid_type():
    v, x, s = fresh_value('value')
    cbs = bool(choose(2))
    u = Uniform('value', s, cbs) if s is not None else None
    if choose(2):
        r = do(T.is_instance_of_valid_type, v, **({'can_be_str': True} if cbs else {}))
    else:
        r = do(T.is_instance_of, v, None, can_be_str=cbs)
    prove('a scalar, or a list of members of one scalar type',
          boolean(r) == (u.full if s is not None else Or(*[IS[t](x) for t in SCALARS])))


@unit('C13', [M + 'is_instance_of', M + 'extract_type', M + 'is_typing_list', M + 'is_valid_scalar_type', M + '_is_scalar_instance'],
      assumes=ANY, budget=150)
def instance_of():
    v, x, s = fresh_value('value')
    typ, t, is_list = pick_type(none=False)
    cbs = bool(choose(2))
    every = ForAllPrefix('value', s, ok(t, cbs)) if s is not None else None
    r = do(T.is_instance_of, v, typ, **({'can_be_str': True} if cbs else {}))
    if is_list:
        prove('a list of members of exactly the type', boolean(r) == (every.full if s is not None else z3.BoolVal(False)))
    else:
        prove('exactly the type', boolean(r) == (ok(t, cbs)(x) if s is None else z3.BoolVal(False)))


@unit('C13', [M + 'extract_type', M + 'is_typing_list', M + 'is_valid_scalar_type'])
def extract():
    typ, t, is_list = pick_type(none=False)
    r = do(T.extract_type, typ)
    prove('the scalar type', r[0] is t)
    prove('whether it is a list', r[1] is is_list)
    for bad in (List, list, bytes, None, List[bytes], dict, List[List[int]]):
        k, r = outcome(do, T.extract_type, bad)
        prove('any other type is an error', k == 'raise' and isinstance(r, ValueError), repr(bad))


# ---------------------------------------------------------------- coercion of texts
UNIFORM = {c: uf('uniform.%s' % c, z3.SeqSort(AnyS), BoolS) for c in (False, True)}
VALIDITY = ('is_instance_of_valid_type: as decided in unit valid_type',)


def validity_contract(of=None):
    def spec(value, *, can_be_str=False):
        if isinstance(value, list):
            t = value.as_term(AnyK)
            return BoolK.wrap(of(t) if of is not None else UNIFORM[can_be_str](t))
        return BoolK.wrap(Or(*[IS[y](AnyK.unwrap(value)) for y in SCALARS]))
    use_contract(T.is_instance_of_valid_type, spec)


IOK, IVAL = uf('int.ok', StrS, BoolS), uf('int.val', StrS, IntS)
FOK, FVAL = uf('float.ok', StrS, BoolS), uf('float.val', StrS, z3.RealSort())
YKIND, YSCALAR, YLIST = uf('yaml.kind', StrS, IntS), uf('yaml.scalar', StrS, AnyS), uf('yaml.list', StrS, z3.SeqSort(AnyS))


def yaml_contract(cbs):
    us = {}

    def load(text):
        t = StrK.unwrap(text)
        k = YKIND(t)
        if E().branch(k == 0):
            raise yaml.YAMLError('not YAML')
        if E().branch(k == 1):
            return AnyK.wrap(YSCALAR(t))
        E().assume(k == 2)
        s = VList(kind=AnyK, term=YLIST(t))
        us['list'] = s
        return s
    use_contract(yaml.safe_load, load)
    return us


def reading(r):
    """(scalar term, sequence term) of a result."""
    return (None, r.as_term(AnyK)) if isinstance(r, VList) else (AnyK.unwrap(r), None)


@unit('C13', [M + 'coerce_to_type', M + 'extract_type', M + '_is_scalar_instance',
              'launch.utilities.ensure_argument_type_impl:ensure_argument_type'], assumes=ANY + TEXT + VALIDITY, budget=200)
def coerce_text():
    E().path.refkind = OtherK
    x = fresh_str('text')
    t = x.term
    typ, sc, is_list = pick_type()
    cbs = bool(choose(2))
    yaml_contract(cbs)
    validity_contract(lambda q: If(q == YLIST(t), u.full, UNIFORM[cbs](q)))
    for y in ('true', 'false'):
        # the YAML reading of the two literals the code substitutes for 1 and 0
        E().assume(And(YKIND(StringVal(y)) == 1, YSCALAR(StringVal(y)) == AnyS.bool(z3.BoolVal(y == 'true'))))
    L = VList(kind=AnyK, term=YLIST(t))
    u = Uniform('list', L, cbs)
    k, r = outcome(do, T.coerce_to_type, x, typ, **({'can_be_str': True} if cbs else {}))
    empty = t == StringVal('')
    readable = Or(And(YKIND(t) == 1, Or(*[IS[y](YSCALAR(t)) for y in SCALARS])), And(YKIND(t) == 2, u.full))
    keep = z3.BoolVal(cbs)
    if typ is None:
        good = Or(empty, readable, And(keep, YKIND(t) == 0))
    elif is_list:
        good = And(Not(empty), YKIND(t) == 2, u.full, u.by[sc].full)
    elif sc is str:
        good = z3.BoolVal(True)
    elif sc in (int, float):
        good = Or((IOK if sc is int else FOK)(t), keep)
    else:
        one, zero = t == StringVal('1'), t == StringVal('0')
        good = Or(one, zero, And(empty, keep), And(Not(empty), Or(And(YKIND(t) == 1, ok(bool, cbs)(YSCALAR(t))), And(YKIND(t) == 0, keep))))
    if k == 'raise':
        prove('only a text without a value of the type is rejected', Not(good), repr(r))
        prove('the rejection is a ValueError', isinstance(r, ValueError), repr(r))
        return
    prove('a text without a value of the type is rejected', good)
    s, l = reading(r)
    if typ is None:
        if l is not None:
            prove('the YAML reading', And(Not(empty), YKIND(t) == 2, l == YLIST(t)))
        else:
            prove('the YAML reading', s == If(Or(empty, YKIND(t) == 0), AnyS.str(t), YSCALAR(t)))
            prove('not a list', Or(empty, YKIND(t) != 2))
    elif is_list:
        prove('a list', l is not None)
        if l is not None:
            prove('the YAML reading of the list, all members of the type', And(l == YLIST(t), u.by[sc].full))
    else:
        prove('a scalar', s is not None)
        if s is None:
            return
        prove('of the type', ok(sc, cbs)(s))
        if sc is str:
            prove('the text itself', s == AnyS.str(t))
        elif sc is bool:
            prove('the truth value', s == If(t == StringVal('1'), AnyS.bool(True), If(t == StringVal('0'), AnyS.bool(False), If(
                Or(empty, YKIND(t) == 0), AnyS.str(t), YSCALAR(t)))))
        else:
            v = AnyS.int(IVAL(t)) if sc is int else AnyS.real(FVAL(t))
            prove('the number', s == If((IOK if sc is int else FOK)(t), v, AnyS.str(t)))


@unit('C13', [M + 'coerce_to_type', 'launch.utilities.ensure_argument_type_impl:ensure_argument_type'], assumes=ANY)
def coerce_other():
    """Something that is no text is not coerced."""
    E().path.refkind = OtherK
    typ, sc, is_list = pick_type()
    v = (fresh_int('value'), fresh_bool('value'), 1, None, [], fresh_seq('value', StrK))[choose(6)]
    k, r = outcome(do, T.coerce_to_type, v, typ, can_be_str=bool(choose(2)))
    prove('a TypeError', k == 'raise' and isinstance(r, TypeError), repr(r))


CT_OK = {}
COERCED = ('coerce_to_type(text, type) is a value of the type determined by text and type, or a ValueError (unit coerce_text)',)


def coerce_contract():
    def spec(value, data_type=None, *, can_be_str=False):
        prove('only texts are coerced', isinstance(value, str))
        okf, vf = coerced(data_type, can_be_str)
        t = StrK.unwrap(value)
        if not E().branch(okf(t)):
            raise ValueError('not coercible')
        if data_type in SCALARS:
            E().assume(ok(data_type, can_be_str)(vf(t)))
        return AnyK.wrap(vf(t))
    use_contract(T.coerce_to_type, spec)


def coerced(data_type, cbs):
    n = '%s.%s' % (getattr(data_type, '__name__', data_type), cbs)
    return uf('coercible.' + n, StrS, BoolS), uf('coerced.' + n, StrS, AnyS)


@unit('C13', [M + 'coerce_list', M + 'get_typed_value', 'launch.utilities.ensure_argument_type_impl:ensure_argument_type'],
      assumes=ANY + COERCED + VALIDITY, budget=200)
def coerce_texts():
    E().path.refkind = OtherK
    seq = fresh_seq('texts', StrK)
    typ = (None,) + SCALARS
    sc = typ[choose(5)]
    cbs = bool(choose(2))
    via = choose(2)
    coerce_contract()
    validity_contract()
    okf, vf = coerced(sc, cbs)
    good = ForAllPrefix('coercible', seq, okf)
    vals = MapFold('values', seq, vf, AnyK)
    if via:
        k, r = outcome(do, T.get_typed_value, seq, None if sc is None else LISTS[sc], can_be_str=cbs)
    else:
        k, r = outcome(do, T.coerce_list, seq, sc, can_be_str=cbs)
    fine = And(good.full, UNIFORM[cbs](vals.full))
    if k == 'raise':
        prove('only texts without values of one type are rejected', Not(fine), repr(r))
        prove('the rejection is a ValueError', isinstance(r, ValueError), repr(r))
        return
    prove('texts without values of one type are rejected', fine)
    prove('the coerced members, in order', isinstance(r, VList) and r.as_term(AnyK) == vals.full)


@unit('C13', [M + 'get_typed_value', M + 'coerce_to_type', M + 'extract_type'], assumes=ANY + COERCED)
def typed_value():
    E().path.refkind = OtherK
    typ, sc, is_list = pick_type()
    cbs = bool(choose(2))
    x = fresh_str('text')
    marker = VList([1])

    def spec(v, t=None, *, can_be_str=False):
        prove('the text is coerced to the requested type', v is x and t is typ and can_be_str is cbs)
        return marker
    use_contract(T.coerce_to_type, spec)
    prove('the coerced text', do(T.get_typed_value, x, typ, can_be_str=cbs) is marker)
    if typ is not None and not is_list:
        k, r = outcome(do, T.get_typed_value, fresh_seq('texts', StrK), typ, can_be_str=cbs)
        prove('a list is no scalar', k == 'raise' and isinstance(r, TypeError), repr(r))


@unit('C13', ['launch.frontend.type_utils:get_data_type_from_identifier'])
def identifiers():
    names = {'str': str, 'bool': bool, 'float': float, 'int': int, 'list_of_str': List[str], 'list_of_bool': List[bool],
             'list_of_float': List[float], 'list_of_int': List[int], 'yaml': None}
    for n, t in names.items():
        r = do(frontend_types.get_data_type_from_identifier, n)
        prove('the type of the identifier', r is t or r == t, n)
    x = fresh_str('identifier')
    k, r = outcome(do, frontend_types.get_data_type_from_identifier, x)
    known = Or(*[x.term == StringVal(n) for n in names])
    if k == 'raise':
        prove('only an unknown identifier is rejected', And(Not(known), z3.BoolVal(isinstance(r, ValueError))))
    else:
        prove('an unknown identifier is rejected', known)


# ---------------------------------------------------------------- substitutions with a type
class Part(SymObj):
    """A member that is no scalar: something with substitutions, or anything else."""

    def vc_isinstance(self, c):
        cs = c if isinstance(c, tuple) else (c,)
        if all(x in SCALARS for x in cs):
            return False
        raise Unsupported('type test of a member')


PartK = ObjK('member', Part)
ISSUB, NORMSUB = uf('is_substitution', IntS, BoolS), uf('is_normalized', IntS, BoolS)
NORMOF, EXPOF = uf('normalized', IntS, IntS), uf('expansion', IntS, StrS)
SUBST = ('is_substitution and is_normalized_substitution: as decided in units with those names',
         'normalize_to_list_of_substitutions and perform_substitutions: as decided for C12',
         'is_instance_of: as decided in unit instance_of')
KINDOF = uf('member.kind', IntS, IntS)


class Member(SymObj):
    """A member of a list: a substitution (0), a text (1) or anything else."""

    def vc_isinstance(self, c):
        r = z3.BoolVal(False)
        for x in (c if isinstance(c, tuple) else (c,)):
            if x is Substitution:
                r = Or(r, KINDOF(self.term) == 0)
            elif x is str:
                r = Or(r, KINDOF(self.term) == 1)
            else:
                raise Unsupported('class test %r on an item' % (x,))
        return BoolK.wrap(r)


MemberK = ObjK('member', Member)


@unit('C13', [M + 'is_normalized_substitution', M + 'is_substitution'])
def is_substitution():
    p = E().path
    p.refkind = MemberK
    seq = fresh_seq('members', MemberK, cls=(list, tuple)[choose(2)])
    n = Length(seq.term)
    subs = ForAllPrefix('substitutions', seq, lambda x: KINDOF(x) == 0)
    texts = ForAllPrefix('texts', seq, lambda x: Not(KINDOF(x) == 0))
    either = ForAllPrefix('either', seq, lambda x: Or(KINDOF(x) == 0, KINDOF(x) == 1))
    # consequences of the definitions for no member
    E().assume(Implies(n == 0, And(subs.full, texts.full, either.full)))
    prove('a list of substitutions only', boolean(do(T.is_normalized_substitution, seq)) ==
          And(z3.BoolVal(seq.cls is list), n > 0, subs.full))
    prove('substitutions and texts, with a substitution', boolean(do(T.is_substitution, seq)) ==
          And(n > 0, either.full, Not(texts.full)))
    s = fresh_obj('substitution', SubK)
    prove('a substitution', boolean(do(T.is_substitution, s)))
    for x in ('', 'text', None, 5, 1.5, True, [], ()):
        prove('plain values are no substitutions', Not(boolean(do(T.is_substitution, x))), repr(x))
        prove('plain values are not normalized', Not(boolean(do(T.is_normalized_substitution, x))), repr(x))


def a_part(x, pred):
    x = x.resolve() if type(x) is SymAny else x
    return BoolK.wrap(pred(x.term)) if type(x) is Part else False


def substitution_contracts(ctx=None):
    def asref(x):
        return None if isinstance(x, SCALARS) or x is None else ObjK.unwrap(PartK, x)
    use_contract(T.is_substitution, lambda x: False if asref(x) is None else BoolK.wrap(ISSUB(asref(x))))
    use_contract(T.is_normalized_substitution, lambda x: False if asref(x) is None or isinstance(x, VList) else
                 BoolK.wrap(NORMSUB(asref(x))))

    def normalize(x):
        prove('only substitutions are normalized', ISSUB(asref(x)))
        return PartK.wrap(NORMOF(asref(x)))
    use_contract(T.normalize_to_list_of_substitutions, normalize)

    def perform(c, x):
        prove('expanded in the given context', c is ctx)
        prove('only normalized substitutions are expanded', NORMSUB(asref(x)))
        return StrK.wrap(EXPOF(asref(x)))
    use_contract(T.perform_substitutions, perform)


@unit('C13', [M + 'perform_typed_substitution', M + 'normalize_typed_substitution', M + 'is_instance_of', M + '_is_scalar_instance'],
      assumes=SUBST)
def typed_scalar():
    E().path.refkind = PartK
    ctx = new_context()
    substitution_contracts(ctx)
    typ, sc, is_list = pick_type()
    x = fresh_any('value')
    E().assume(Or(*[IS[y](x.term) for y in SCALARS]))
    good = z3.BoolVal(True) if typ is None else z3.BoolVal(False) if is_list else IS[sc](x.term)
    for f in (lambda: do(T.normalize_typed_substitution, x, typ), lambda: do(T.perform_typed_substitution, ctx, x, typ)):
        k, r = outcome(f)
        if k == 'raise':
            prove('only a scalar of another type is rejected', Not(good), repr(r))
            prove('the rejection is a TypeError', isinstance(r, TypeError))
        else:
            prove('a scalar of another type is rejected', good)
            prove('the scalar itself', AnyK.unwrap(r) == x.term)


@unit('C13', [M + 'perform_typed_substitution', M + 'normalize_typed_substitution'], assumes=SUBST + COERCED)
def typed_expansion():
    """A substitution is coerced like the text it expands to."""
    E().path.refkind = PartK
    ctx = new_context()
    substitution_contracts(ctx)
    typ, sc, is_list = pick_type()
    seen = []

    def spec(v, t=None, *, can_be_str=False):
        prove('the expansion is coerced to the requested type', And(StrK.unwrap(v) == EXPOF(s.term), z3.BoolVal(t is typ and not can_be_str)))
        seen.append(1)
        if choose(2):
            raise ValueError('not coercible')
        return marker
    use_contract(T.coerce_to_type, spec)
    marker = VList([1])
    s = fresh_obj('substitution', PartK)
    E().assume(And(ISSUB(s.term), NORMSUB(s.term)))
    k, r = outcome(do, T.perform_typed_substitution, ctx, s, typ)
    prove('rejected exactly if the coercion rejects the text', (r is marker) if k == 'ok' else isinstance(r, ValueError))
    prove('coerced once', len(seen) == 1)
    r = do(T.normalize_typed_substitution, s, typ)
    prove('normalized', r.term == NORMOF(s.term))


INST = {t: uf('is_list_of_%s' % getattr(t, '__name__', t), z3.SeqSort(AnyS), BoolS) for t in SCALARS + (None,)}


@unit('C13', [M + 'perform_typed_substitution'], assumes=SUBST + COERCED, budget=150)
def typed_list():
    """A list with substitutions among its members is coerced member by member."""
    p = E().path
    p.refkind = PartK
    ctx = new_context()
    substitution_contracts(ctx)
    coerce_contract()
    typ, sc, is_list = pick_type()
    seq = fresh_seq('members', AnyK)
    use_contract(T.is_normalized_substitution, lambda x: False if x is seq else a_part(x, NORMSUB))

    def instance(value, data_type=None, *, can_be_str=False):
        prove('the result is checked against the requested type', data_type is typ and not can_be_str)
        return BoolK.wrap(INST[sc](value.as_term(AnyK)))
    use_contract(T.is_instance_of, instance)
    okf, vf = coerced(sc, False)
    sub = lambda x: And(AnyS.is_ref(x), NORMSUB(AnyS.o(x)))   # noqa: E731
    good = ForAllPrefix('coercible', seq, lambda x: Implies(sub(x), okf(EXPOF(AnyS.o(x)))))
    out = MapFold('values', seq, lambda x: If(sub(x), vf(EXPOF(AnyS.o(x))), x), AnyK)
    k, r = outcome(do, T.perform_typed_substitution, ctx, seq, typ)
    fine = z3.BoolVal(False) if typ is not None and not is_list else And(good.full, INST[sc](out.full))
    if k == 'raise':
        prove('only a list whose values do not have the type is rejected', Not(fine), repr(r))
        prove('the rejection is a ValueError', isinstance(r, ValueError), repr(r))
        return
    prove('a list whose values do not have the type is rejected', fine)
    prove('the values of the members, in order', isinstance(r, VList) and r.as_term(AnyK) == out.full)


class SetFold(Fold):
    """The set of code(x) of the members."""

    def __init__(self, name, seq, code):
        self.code = code
        super().__init__(name, seq, z3.K(IntS, z3.BoolVal(False)), lambda acc, x: Store(acc, code(x), True))

    def unfold(self, k, init=False, last=False):
        super().unfold(k, init, last)
        if not init and not last:
            E().assume(Implies(And(k >= 0, k < self.n), Select(self.full, self.code(self.base[k]))))


@unit('C13', [M + 'normalize_typed_substitution', M + 'extract_type'], assumes=SUBST, budget=200)
def normalize_list_typed():
    p = E().path
    p.refkind = PartK
    substitution_contracts()
    typ, sc, is_list = pick_type()
    seq = fresh_seq('members', AnyK, cls=(list, tuple)[choose(2)])
    use_contract(T.is_substitution, lambda x: a_part(x, ISSUB))
    C = {t: V.ref_of(t) for t in SCALARS + (Substitution,)}

    def code(x):
        return If(AnyS.is_bool(x), C[bool], If(AnyS.is_int(x), C[int], If(AnyS.is_real(x), C[float], If(AnyS.is_str(x), C[str], C[Substitution]))))
    good = ForAllPrefix('members', seq, lambda x: And(Not(AnyS.is_none(x)), Implies(AnyS.is_ref(x), ISSUB(AnyS.o(x)))))
    types = SetFold('types', seq, code)

    def elem(x, f=lambda x: x):
        return If(AnyS.is_ref(x), AnyS.ref(NORMOF(AnyS.o(x))), f(x))
    plain = MapFold('normalized', seq, elem, AnyK)
    real = MapFold('normalized.float', seq, lambda x: elem(x, lambda y: If(AnyS.is_int(y), AnyS.real(z3.ToReal(AnyS.i(y))), y)), AnyK)
    subs = MapFold('normalized.parts', seq, lambda x: NORMOF(AnyS.o(x)), PartK)
    reals = MapFold('normalized.reals', seq, lambda x: If(AnyS.is_int(x), z3.ToReal(AnyS.i(x)), AnyS.r(x)), RealK)
    k, r = outcome(do, T.normalize_typed_substitution, seq, typ)
    A = types.full

    def within(*ts):
        s = z3.K(IntS, z3.BoolVal(False))
        for t in ts:
            s = Store(s, C[t], True)
        return z3.SetDifference(A, s) == z3.K(IntS, z3.BoolVal(False))
    empty = A == z3.K(IntS, z3.BoolVal(False))
    want = lambda t: z3.BoolVal(sc in (None, t))   # noqa: E731
    fine = And(good.full, z3.BoolVal(typ is None or is_list), Or(
        And(within(Substitution), Not(empty)), And(within(str, Substitution), want(str)), And(within(bool, Substitution), want(bool)),
        And(within(int, Substitution), want(int)), And(within(int, float, Substitution), want(float))))
    if k == 'raise':
        # no members, or integers for a list of floats: rejecting is left open
        prove('only members that cannot become the type are rejected',
              Implies(fine, Or(empty, And(within(int, Substitution), z3.BoolVal(sc is float)))), repr(r))
        prove('the rejection is a TypeError', isinstance(r, TypeError), repr(r))
        return
    prove('members that cannot become the type are rejected', Or(fine, And(empty, z3.BoolVal(typ is None or is_list))))
    prove('a list', isinstance(r, VList))
    if r.kind is not None and r.items is None and r.kind.sort == IntS:
        prove('substitutions are normalized, in order', And(within(Substitution), r.term == subs.full))
    elif r.kind is RealK and r.items is None:
        prove('numbers become floats, in order', And(within(int, float), r.term == reals.full))
    else:
        t = r.as_term(AnyK)
        floats = And(within(int, float, Substitution), Or(Not(within(int, Substitution)), z3.BoolVal(sc is float)))
        prove('substitutions are normalized, numbers among floats become floats, other members stay, in order',
              t == If(floats, real.full, plain.full))
