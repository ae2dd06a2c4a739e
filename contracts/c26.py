"""C26: argument discovery lists each declared launch argument of a description."""
from .common import *
from launch import Condition, LaunchDescription, LaunchDescriptionEntity
from launch.actions import (DeclareLaunchArgument, GroupAction, IncludeLaunchDescription, LogInfo, RegisterEventHandler,
                            ResetLaunchConfigurations, TimerAction)
from launch.event_handler import EventHandler

LD = 'launch:LaunchDescription.'
FIND = LD + 'get_launch_arguments_with_include_launch_description_actions'
CS = z3.SeqSort(IntS)
WHAT = uf('entity.class', IntS, IntS)          # 0 declaration, 1 reset, 2 include, anything else: other
NAME, HASCOND = uf('entity.name', IntS, StrS), uf('entity.has_condition', IntS, BoolS)
SUBS = uf('sub_entities', IntS, CS)


class SomeCondition(Fake):
    __class__ = Condition

    def evaluate(self, ctx):
        raise Unsupported('conditions are not evaluated by argument discovery')


CONDITION = SomeCondition()


class Entity(SymObj):
    """Any entity of a description.  What declarations and resets contain is established in who_contains_what."""
    py_class = LaunchDescriptionEntity

    def __init__(self, term):
        super().__init__(term)
        E().assume(WHAT(term) >= 0)
        track(self)

    def vc_isinstance(self, c):
        r = z3.BoolVal(False)
        for x in (c if isinstance(c, tuple) else (c,)):
            if x is DeclareLaunchArgument:
                r = Or(r, WHAT(self.term) == 0)
            elif x is ResetLaunchConfigurations:
                r = Or(r, WHAT(self.term) == 1)
            elif x is IncludeLaunchDescription:
                r = Or(r, WHAT(self.term) == 2)
            elif x is LaunchDescriptionEntity:
                return True
            else:
                raise Unsupported('class test %r on an entity' % (x,))
        return BoolK.wrap(r)

    @property
    def name(self):
        return StrK.wrap(NAME(self.term))

    @property
    def condition(self):
        return CONDITION if E().branch(HASCOND(self.term)) else None

    @property
    def _conditionally_included(self):
        return E().path.marks[self]

    @_conditionally_included.setter
    def _conditionally_included(self, v):
        E().path.marks[self] = v

    def describe_sub_entities(self):
        if E().branch(WHAT(self.term) <= 1):
            return VList([])
        return VList(kind=EntK, term=SUBS(self.term))

    def describe_conditional_sub_entities(self):
        if E().branch(WHAT(self.term) <= 1):
            return VList([('if its condition holds', VList([]))] if E().branch(HASCOND(self.term)) else [])
        E().path.asked = self.term
        return VList(kind=CondK, term=CONDS(self.term))


EntK = ObjK('entity', Entity)
CondK = TupK(StrK, SeqOfK(EntK), name='conditional')
CONDS = uf('conditional_sub_entities', IntS, z3.SeqSort(CondK.sort))


class AnyChain(Fake):
    """The include chain of an earlier declaration; it is not looked at."""

    def __init__(self, term):
        self.chain = term


class _ChainK(Kind):
    """An include chain: None, or a non-empty list that is not changed any more."""
    name, sort = 'chain', CS

    def wrap(self, term):
        return AnyChain(term)

    def unwrap(self, py):
        if py is None:
            return Empty(CS)
        if isinstance(py, AnyChain):
            return py.chain
        if not isinstance(py, VList):
            raise Unsupported('include chain of type %s' % type(py))
        py.frozen = 'an include chain is not changed after it was handed out'
        return py.as_term(EntK)


ChainK = _ChainK()
PairK = TupK(EntK, ChainK, name='declared')
PS, MS = z3.SeqSort(PairK.sort), (z3.ArraySort(IntS, BoolS), z3.ArraySort(IntS, BoolS))
NAMES = uf('names', PS, z3.SeqSort(StrS))
_proc = [uf('search.' + n, PS, MS[0], MS[1], CS, BoolS, CS, s) for n, s in
         (('found', PS), ('marked', MS[0]), ('marks', MS[1]))]
_cond = [uf('search_conditional.' + n, PS, MS[0], MS[1], z3.SeqSort(CondK.sort), CS, s) for n, s in
         (('found', PS), ('marked', MS[0]), ('marks', MS[1]))]


def PROC(d, m, ents, cond, chain):
    """State after searching a list of entities."""
    return [_proc[0](d, m[0], m[1], ents, cond, chain),
            tuple(f(d, m[0], m[1], ents, cond, chain) for f in _proc[1:])]


def PROC_COND(d, m, conds, chain):
    return [_cond[0](d, m[0], m[1], conds, chain), tuple(f(d, m[0], m[1], conds, chain) for f in _cond[1:])]


def pick(c, a, b):
    return [If(c, a[0], b[0]), tuple(If(c, x, y) for x, y in zip(a[1], b[1]))]


def step(d, m, x, cond, chain):
    """Definition of the search, one entity."""
    new = Not(z3.Contains(NAMES(d), Unit(NAME(x))))
    decl = [If(new, Concat(d, Unit(PairK.mk(x, chain))), d),
            (If(new, z3.Store(m[0], x, z3.BoolVal(True)), m[0]), If(new, z3.Store(m[1], x, Or(cond, HASCOND(x))), m[1]))]
    ch = If(WHAT(x) == 2, Concat(chain, Unit(x)), chain)
    sub = PROC(d, m, SUBS(x), cond, ch)
    other = PROC_COND(sub[0], sub[1], CONDS(x), ch)
    return pick(WHAT(x) == 0, decl, pick(WHAT(x) == 1, [d, m], other))


def _names_hook(s):
    if s.kind is PairK or s.term.sort() == PS:
        f = MapFold('names', s, lambda x: NAME(PairK.sort.accessor(0, 0)(x)), StrK)
        E().assume(f.full == NAMES(s.term))


def _declared(f):
    """The list of declarations found so far: the list captured by the search."""
    for c in f.__closure__ or ():
        v = c.cell_contents
        if isinstance(v, VList) and v.cls is list:
            return v
    raise Unsupported('the search keeps its result elsewhere')


def _contract(chain_now=None):
    def callee(f, a, k, depth):
        ents = rt.to_vlist(a[0]) if a else None
        k = dict(f.__kwdefaults__ or {}, **k)
        if ents is None or len(a) != 1 or set(k) != {'_conditional_inclusion', 'nested_ild_actions'}:
            raise Unsupported('the search takes other arguments')
        if ents.items == []:
            return
        d, marks = _declared(f), E().path.marks
        ch = ChainK.unwrap(k['nested_ild_actions'])
        r = PROC(d.as_term(PairK), marks.arrays(EntK, BoolK), ents.as_term(EntK), lift(k['_conditional_inclusion']), ch)
        if d.items is not None:
            d.make_symbolic(PairK)
        V.core.log_write(d, None, PairK)
        d.term = r[0]
        V.core.log_write(marks, None, (EntK, BoolK))
        marks.pres, marks.val = r[1]
    return callee


ASSUMES = ['the recursive search of a list of sub-entities obeys the contract being proved (induction on the finite tree)',
           'lemma: a map over a list followed by membership is membership in the list of names']


@unit('C26', [FIND + '.<locals>.process_entities'], assumes=ASSUMES, budget=200)
def search_of_a_list():
    """One call of the search, on any state, any entities, any chain."""
    quiet()
    p = E().path
    p.refkind = EntK
    p.marks = VDict.fresh('marks', EntK, BoolK)
    track(p.marks)
    contract = _contract()
    done = []

    def handler(f, a, k, depth):
        if depth > 1:
            return contract(f, a, k, depth)
        d = _declared(f)
        d.items, d.kind, d.term = None, PairK, E().fresh('found', PS)
        S = fresh_seq('entities', EntK)
        cond = fresh_bool('conditional')
        if choose(2):
            C = fresh_seq('chain', EntK)
            E().assume(z3.Length(C.term) > 0)
            chain = C.term
        else:
            C, chain = None, Empty(CS)
        d0, m0 = d.term, (p.marks.pres, p.marks.val)
        F = MultiFold('search', S, [d0, m0], lambda s, x: step(s[0], s[1], x, cond.term, chain),
                      stop=lambda x: WHAT(x) == 1)

        def hook(s):
            _names_hook(s)
            if s.term.sort() == z3.SeqSort(CondK.sort):
                dn, mn = d.as_term(PairK), (p.marks.pres, p.marks.val)
                x = p.asked
                ch = If(WHAT(x) == 2, Concat(chain, Unit(x)), chain)
                acc = CondK.sort.accessor(0, 1)
                g = MultiFold('conditional', s, [dn, mn], lambda st, y: PROC(st[0], st[1], acc(y), z3.BoolVal(True), ch))
                r = PROC_COND(dn, mn, s.term, ch)
                E().assume(And(g.full[0] == r[0], g.full[1][0] == r[1][0], g.full[1][1] == r[1][1]))
        p.seq_hooks.append(hook)
        if C is not None:
            C.frozen = 'the include chain handed to the search is not changed by it'
        f(S, _conditional_inclusion=cond, nested_ild_actions=C)
        want = F.full
        prove('every declaration is listed once per name, in order, with its include chain', d.as_term(PairK) == want[0])
        q = E().fresh('q', IntS)
        prove('every declaration is marked conditional exactly if it is',
              And(z3.Select(p.marks.pres, q) == z3.Select(want[1][0], q), Implies(z3.Select(want[1][0], q), z3.Select(p.marks.val, q) == z3.Select(want[1][1], q))))
        done.append(1)
        E().end()
    use_local_contract(LaunchDescription.get_launch_arguments_with_include_launch_description_actions, handler)
    ld = new(LaunchDescription, [])
    do(ld.get_launch_arguments_with_include_launch_description_actions)
    raise Unsupported('the search is not a local function of the description')


@unit('C26', [FIND, LD + 'get_launch_arguments'], assumes=ASSUMES[:1])
def whole_description():
    quiet()
    p = E().path
    p.refkind = EntK
    p.marks = VDict.fresh('marks', EntK, BoolK)
    track(p.marks)
    m0 = (p.marks.pres, p.marks.val)
    c = use_local_contract(LaunchDescription.get_launch_arguments_with_include_launch_description_actions, _contract())
    S = fresh_seq('entities', EntK)
    ld = new(LaunchDescription, S, **dict(deprecated_reason=fresh_str('reason')) if choose(2) else {})
    m = choose(3)
    kw, cond = {}, z3.BoolVal(False)
    if m == 1:
        x = fresh_bool('conditional')
        kw, cond = dict(conditional_inclusion=x), x.term
    if m == 2:
        p.seq_hooks.append(lambda s: s.term.sort() == PS and MapFold(
            'first', s, lambda x: PairK.sort.accessor(0, 0)(x), EntK))
        want = PROC(Empty(PS), m0, S.term, cond, Empty(CS))[0]
        W = MapFold('declarations', VList(kind=PlainK, term=want), lambda x: PairK.sort.accessor(0, 0)(x), EntK)
        use_contract(LaunchDescription.get_launch_arguments_with_include_launch_description_actions,
                     lambda s, conditional_inclusion=False: VList(kind=PlainK, term=PROC(
                         Empty(PS), m0, S.term, lift(conditional_inclusion), Empty(CS))[0]))
        r = rt.to_vlist(do(ld.get_launch_arguments))
        prove('the arguments are the listed ones, in order', r.as_term(EntK) == W.full)
        return
    r = rt.to_vlist(do(ld.get_launch_arguments_with_include_launch_description_actions, **kw))
    if not c.used:
        raise Unsupported('the search is not a local function of the description')
    want = PROC(Empty(PS), m0, S.term, cond, Empty(CS))
    prove('the whole description is searched, starting from nothing', r.as_term(PairK) == want[0])


class _PlainChain(_ChainK):
    def wrap(self, term):
        return VList(kind=EntK, term=term)


PlainK = TupK(EntK, _PlainChain(), name='declared')


@unit('C26', ['launch:Action.describe_sub_entities', 'launch:Action.describe_conditional_sub_entities',
              'launch.actions:GroupAction.get_sub_entities', LD + 'describe_sub_entities'])
def who_contains_what():
    """Sub-entities are reported, conditional exactly if the action has a condition."""
    ctx = new_context()
    env = environ()
    S = fresh_seq('actions', ObjK('action', Act))
    E().path.refkind = ObjK('action', Act)
    m = choose(6)
    if m == 0:
        ld = new(LaunchDescription, S, **dict(deprecated_reason=fresh_str('reason')) if choose(2) else {})
        prove('a description contains its entities', rt.to_vlist(do(ld.describe_sub_entities)).as_term(RefK) == S.term)
        prove('a description contains nothing conditional', len(rt.to_vlist(do(ld.describe_conditional_sub_entities)).items) == 0)
        return
    kw = {}
    if m > 3:
        c = dict(condition=SomeCondition()) if choose(2) else {}
        a = new(DeclareLaunchArgument, 'name', **c) if m == 4 else new(ResetLaunchConfigurations, **c)
        prove('a declaration or a reset contains nothing', len(rt.to_vlist(do(a.describe_sub_entities)).items) == 0)
        for x in rt.to_vlist(do(a.describe_conditional_sub_entities)).items:
            prove('a declaration or a reset contains nothing conditional', len(rt.to_vlist(x[1]).items) == 0)
        return
    if m > 1:
        kw['condition'] = SomeCondition()
    a = new(GroupAction, S, scoped=False, **kw) if m < 3 else new(GroupAction, S, **kw)
    plain = rt.to_vlist(do(a.describe_sub_entities))
    cond = rt.to_vlist(do(a.describe_conditional_sub_entities))
    if m > 1:
        prove('nothing is reported as unconditional', plain.items is not None and len(plain.items) == 0)
        prove('one conditional list', len(cond.items) == 1)
        plain = rt.to_vlist(cond.items[0][1])
    else:
        prove('nothing is reported as conditional', len(cond.items) == 0)
    if m < 3:
        prove('the actions are reported in order', plain.as_term(RefK) == S.term)
    else:
        prove('the actions are reported, in order and together', z3.Contains(plain.as_term(RefK), S.term))


class Act(SymObj):
    py_class = launch.Action


@unit('C26', ['launch.actions:TimerAction.describe_conditional_sub_entities',
              'launch.actions:RegisterEventHandler.describe_conditional_sub_entities',
              'launch:EventHandler.describe'])
def deferred_actions():
    """What timers and event handlers hold is reported as conditional."""
    quiet()
    E().path.refkind = K = ObjK('action', Act)
    m = choose(4)
    if m == 2:
        x = fresh_obj('action', K)
        S = VList([x])
    else:
        S = fresh_seq('actions', K)
        E().path.seq_hooks.append(lambda s: s.kind is K and E().assume(MapFold('copy', s, lambda x: x, K).full == s.term))
    if m == 0:
        a = new(TimerAction, period=1.0, actions=S)
    elif m == 1:
        a = new(RegisterEventHandler, new(EventHandler, matcher=lambda e: True, entities=S))
    elif m == 2:
        a = new(RegisterEventHandler, new(EventHandler, matcher=lambda e: True, entities=x))
    else:
        a = new(RegisterEventHandler, new(EventHandler, matcher=lambda e: True))
        S = VList([])
    prove('nothing is reported as unconditional', len(rt.to_vlist(do(a.describe_sub_entities)).items) == 0)
    r = rt.to_vlist(do(a.describe_conditional_sub_entities))
    if m in (1, 3) and len(r.items) == 0:
        prove('no conditional list only if there is no entity', z3.Length(S.as_term(K)) == 0)
        return
    prove('one conditional list', len(r.items) == 1)
    prove('with the entities, in order', rt.to_vlist(r.items[0][1]).as_term(K) == S.as_term(K))
