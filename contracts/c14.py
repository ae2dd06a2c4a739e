"""C14: launch files with unread attributes or children are rejected."""
from typing import List

from .common import *
from .c13 import SetFold
import launch.actions
import launch.frontend
from launch.frontend import Entity as BaseEntity, expose, Parser
from launch.utilities import type_utils as T
import launch_xml.entity
import launch_yaml.entity

X, Y = launch_xml.entity.Entity, launch_yaml.entity.Entity
XM, YM = 'launch_xml.entity:Entity.', 'launch_yaml.entity:Entity.'
TAG, WRAP, NAMED = uf('tag', IntS, StrS), uf('entity_of', IntS, IntS), uf('entity_named', IntS, StrS, IntS)
TYPES = (str, int, List[str], None)
TYPED = ('get_typed_value: as decided for C13 (a value, ValueError or TypeError)',
         'str.split(separator): an uninterpreted list of texts')
SETS = z3.ArraySort(StrS, BoolS)


class Child(SymObj):
    """A child element: its tag."""

    @property
    def tag(self):
        return StrK.wrap(TAG(self.term))


ChildK = ObjK('child', Child)


class Ent(SymObj):
    py_class = BaseEntity


EntK = ObjK('entity', Ent)


class Element(SymObj):
    """An element of a markup tree: a tag, attributes and children."""
    tag = 'element'

    def __init__(self, attrib, children):
        self.term = E().fresh('element', IntS)
        self.attrib, self.kids = attrib, children

    def vc_iter(self):
        return self.kids

    def __len__(self):
        return len(self.kids)


def read_set(obj, name):
    """An arbitrary set of names already read, in the private field of that name."""
    s = VSet(kind=StrK, arr=E().fresh('read', SETS))
    if not set_private(obj, name, s):
        raise Unsupported('no field %s: the history of reads is out of reach' % name)
    return s.arr


def now(obj, name):
    return private(obj, name).as_term(StrK)


def xml_entity():
    attrib, kids = fresh_dict('attributes'), fresh_seq('children', ChildK)
    e = new(X, Element(attrib, kids))
    R, C = read_set(e, '__read_attributes'), read_set(e, '__read_children')
    return e, attrib, kids, R, C


def entities(cls, named=False):
    def spec(el, type_name=None, **k):
        if named:
            return EntK.wrap(NAMED(el.term, StrK.unwrap(type_name)))
        return EntK.wrap(WRAP(el.term))
    use_contract(cls, spec)


STATUS = uf('typed.status', AnyS, IntS)


def typed_contract(want_type, cbs):
    """get_typed_value as a function of the text or the list of texts."""
    seen = []

    def spec(value, data_type, *, can_be_str=False):
        prove('the requested type', data_type is want_type)
        prove('whether texts are let through', can_be_str is cbs)
        seen.append(value)
        n = E().choice(3, 'typed')
        if n == 1:
            raise ValueError('no value of the type')
        if n == 2:
            raise TypeError('a list for a scalar')
        seen.append(marker)
        return marker
    marker = object()
    use_contract(T.get_typed_value, spec)
    for m in (launch_xml.entity,):
        use_contract(m.get_typed_value, spec)
    return seen


SPLIT = uf('str.split', StrS, StrS, z3.SeqSort(StrS))


@unit('C14', [XM + '__init__', XM + 'get_attr', XM + 'type_name', 'launch.frontend.type_utils:check_is_list_entity'], assumes=TYPED)
def xml_attribute():
    e, attrib, kids, R, C = xml_entity()
    d0 = snap(attrib)
    pres, val = d0.arrays(StrK, StrK)
    n = fresh_str('name')
    sep = Concat(n.term, StringVal('-sep'))
    typ, cbs, opt = TYPES[choose(4)], bool(choose(2)), bool(choose(2))
    seen = typed_contract(typ, cbs)
    k, r = outcome(do, e.get_attr, n, data_type=typ, optional=opt, can_be_str=cbs)
    same('attributes are not changed', attrib, d0)
    there, split = Select(pres, n.term), Select(pres, sep)
    if k == 'raise':
        if seen:
            prove('the attribute is there', there)
            prove('a TypeError for a value of another type', isinstance(r, TypeError), repr(r))
        else:
            bad = And(there, split, Select(val, sep) == StringVal(''))
            prove('only an absent required attribute, or one with an empty separator, is an error',
                  Or(And(Not(there), z3.BoolVal(not opt)), bad), repr(r))
            if isinstance(r, AttributeError):
                prove('absent', Not(there))
            else:
                prove('an AttributeError for an absent one', And(there, z3.BoolVal(isinstance(r, ValueError))), repr(r))
        return
    prove('children read', now(e, '__read_children') == C)
    if r is None:
        prove('nothing for an absent optional attribute', And(Not(there), z3.BoolVal(opt)))
        prove('nothing is marked as read', now(e, '__read_attributes') == R)
        return
    prove('present', there)
    prove('the typed value', len(seen) == 2 and r is seen[1])
    if not seen:
        return
    v = seen[0]
    if isinstance(v, list):
        prove('the members between separators', And(split, v.as_term(StrK) == SPLIT(Select(val, n.term), Select(val, sep))))
        prove('the attribute and its separator are read', now(e, '__read_attributes') == Store(Store(R, n.term, True), sep, True))
    else:
        prove('the text of the attribute', And(Not(split), StrK.unwrap(v) == Select(val, n.term)))
        prove('the attribute is read', now(e, '__read_attributes') == Store(R, n.term, True))


ENTITIES = ('Entity(element[, type name]): the entity of that element (constructor contract)',)


@unit('C14', [XM + 'get_attr', XM + 'children', 'launch.frontend.type_utils:check_is_list_entity'], assumes=ENTITIES)
def xml_children():
    e, attrib, kids, R, C = xml_entity()
    entities(X)
    every = MapFold('entities', kids, lambda x: WRAP(x), EntK)
    tags = tag_set('tags', kids)
    if choose(2):
        r = do(lambda: e.children)
        prove('every child, in order', r.as_term(EntK) == every.full)
        c1 = now(e, '__read_children')
        prove('every child tag is read', z3.IsSubset(tags.full, c1))
        prove('nothing else is marked as read', z3.IsSubset(c1, z3.SetUnion(C, tags.full)))
        prove('attributes read', now(e, '__read_attributes') == R)
        return
    n = fresh_str('name')
    opt = bool(choose(2))
    hits = FilterFold('named', kids, lambda x: TAG(x) == n.term)
    named = ForAllPrefix('named.all', hits.result, lambda x: TAG(x) == n.term)
    # every member kept by the filter satisfies it
    E().assume(named.full)
    E().assume(Implies(Length(hits.full) > 0, TAG(hits.full[0]) == n.term))
    want = MapFold('named.entities', hits.result, lambda x: WRAP(x), EntK)
    k, r = outcome(do, e.get_attr, n, data_type=List[(BaseEntity, X)[choose(2)]], optional=opt)
    none = Length(hits.full) == 0
    prove('attributes read', now(e, '__read_attributes') == R)
    if k == 'raise':
        prove('only absent required children are an error', And(none, z3.BoolVal(not opt and isinstance(r, AttributeError))), repr(r))
    elif r is None:
        prove('nothing for absent optional children', And(none, z3.BoolVal(opt)))
        prove('nothing is marked as read', now(e, '__read_children') == C)
    else:
        prove('some', Not(none))
        prove('the children of that tag, in order', r.as_term(EntK) == want.full)
        prove('the tag is read', now(e, '__read_children') == Store(C, n.term, True))


def tag_set(name, kids):
    f = SetFold.__new__(SetFold)
    f.code = TAG
    Fold.__init__(f, name, kids, z3.K(StrS, z3.BoolVal(False)), lambda acc, x: Store(acc, TAG(x), True))
    return f


@unit('C14', [XM + 'assert_entity_completely_parsed'])
def xml_assert():
    e, attrib, kids, R, C = xml_entity()
    tags = tag_set('tags', kids)
    pres, _ = attrib.arrays(StrK, StrK)
    k, r = outcome(do, e.assert_entity_completely_parsed)
    complete = And(z3.IsSubset(tags.full, C), z3.IsSubset(pres, R))
    if k == 'raise':
        prove('an element with every attribute and child read is not rejected', Not(complete), repr(r))
        prove('a ValueError', isinstance(r, ValueError), repr(r))
    else:
        prove('an element with an unread attribute or child is rejected', complete)


# ---------------------------------------------------------------- YAML
ISLIST, ISDICT = uf('yaml.is_list', IntS, BoolS), uf('yaml.is_dict', IntS, BoolS)
MEMBERS = uf('yaml.members', IntS, z3.SeqSort(IntS))
SIZE, KEY, VAL = uf('yaml.size', IntS, IntS), uf('yaml.only_key', IntS, StrS), uf('yaml.only_value', IntS, IntS)
DATA = ('YAML data: a mapping, a list of data, or a scalar',)


class Data(SymObj):
    def vc_isinstance(self, c):
        r = z3.BoolVal(False)
        for x in (c.items if isinstance(c, VList) else c if isinstance(c, tuple) else (c,)):
            if x is list:
                r = Or(r, ISLIST(self.term))
            elif x is dict:
                r = Or(r, ISDICT(self.term))
            else:
                raise Unsupported('type test of YAML data')
        return BoolK.wrap(r)

    def vc_iter(self):
        return VList(kind=DataK, term=MEMBERS(self.term))

    def __getitem__(self, i):
        if isinstance(i, str):
            prove('the value of the only key', StrK.unwrap(i) == KEY(self.term))
            return DataK.wrap(VAL(self.term))
        return self.vc_iter()[i]

    def vc_len(self):
        return IntK.wrap(SIZE(self.term))

    def __len__(self):
        raise Unsupported('len')

    def keys(self):
        E().assume(SIZE(self.term) == 1)
        return VList([StrK.wrap(KEY(self.term))])

    def items(self):
        E().assume(SIZE(self.term) == 1)
        return VList([(StrK.wrap(KEY(self.term)), DataK.wrap(VAL(self.term)))])


DataK = ObjK('data', Data)


class DataList(SymObj):
    """A YAML list as the element of an entity."""
    py_class = list

    def __init__(self, seq):
        self.term, self.seq = E().fresh('list', IntS), seq

    def vc_iter(self):
        return self.seq

    def vc_contains(self, x):
        return False            # members are mappings; a list has no attributes


def yaml_entity(is_list=False):
    seq = fresh_seq('children', DataK)
    el = DataList(seq) if is_list else fresh_dict('element', StrK, DataK)
    e = new(Y, el, 'name')
    R = read_set(e, '__read_keys')
    called = fresh_bool('children_called')
    if not set_private(e, '__children_called', called):
        raise Unsupported('no field children_called')
    return e, el, seq, R, called


@unit('C14', [YM + '__init__', YM + 'get_attr', YM + 'type_name', 'launch.frontend.type_utils:check_is_list_entity'],
      assumes=DATA + ENTITIES + ('is_instance_of: as decided for C13',))
def yaml_attribute():
    is_list = bool(choose(2))
    e, el, seq, R, called = yaml_entity(is_list)
    entities(Y, True)
    n = fresh_str('name')
    typ = (TYPES + (List[BaseEntity], List[Y]))[choose(6)]
    cbs, opt = bool(choose(2)), bool(choose(2))
    d0 = None if is_list else snap(el)
    fits = fresh_bool('fits')
    asked = []

    def spec(value, data_type, *, can_be_str=False):
        prove('the requested type', data_type is typ)
        prove('whether texts are let through', can_be_str is cbs)
        asked.append(value)
        return fits
    use_contract(T.is_instance_of, spec)
    there, data = z3.BoolVal(False), None
    if not is_list:
        pres, val = d0.arrays(StrK, DataK)
        there, data = Select(pres, n.term), Select(val, n.term)
        members = VList(kind=DataK, term=MEMBERS(data))
        dicts = ForAllPrefix('mappings', members, lambda x: ISDICT(x))
        want = MapFold('entities', members, lambda x: NAMED(x, n.term), EntK)
    nested = typ in (List[BaseEntity], List[Y])
    k, r = outcome(do, e.get_attr, n, data_type=typ, optional=opt, can_be_str=cbs)
    if not is_list:
        same('the element is not changed', el, d0)
    if k == 'raise':
        if isinstance(r, AttributeError):
            prove('only an absent required attribute', And(Not(there), z3.BoolVal(not opt)), repr(r))
        else:
            prove('a TypeError', isinstance(r, TypeError), repr(r))
            prove('the attribute is there', there)
            prove('only a value of another type', Not(And(ISLIST(data), dicts.full)) if nested else Not(lift(fits)))
        return
    if r is None:
        prove('nothing for an absent optional attribute', And(Not(there), z3.BoolVal(opt)))
        prove('nothing is marked as read', now(e, '__read_keys') == R)
        return
    prove('present', there)
    prove('the attribute is read', now(e, '__read_keys') == Store(R, n.term, True))
    if nested:
        prove('a list of mappings', And(ISLIST(data), dicts.full))
        prove('their entities, in order', r.as_term(EntK) == want.full)
    else:
        prove('of the type', lift(fits))
        prove('the value', DataK.unwrap(r) == data)
        prove('that value was tested', asked and DataK.unwrap(asked[0]) == data)


@unit('C14', [YM + 'children'], assumes=DATA + ENTITIES)
def yaml_children():
    n = choose(2)
    is_list = bool(n)
    e, el, seq, R, called = yaml_entity(is_list)
    entities(Y, True)
    there = z3.BoolVal(True)
    if not is_list:
        pres, val = el.arrays(StrK, DataK)
        there = Select(pres, StringVal('children'))
        seq = VList(kind=DataK, term=MEMBERS(Select(val, StringVal('children'))))
    single = ForAllPrefix('single', seq, lambda x: SIZE(x) == 1)
    want = MapFold('entities', seq, lambda x: NAMED(VAL(x), KEY(x)), EntK)
    k, r = outcome(do, lambda: e.children)
    if k == 'raise':
        prove('only missing children, or one that is no single-key mapping, is an error', Or(Not(there), Not(single.full)), repr(r))
        return
    prove('there', there)
    prove('each a mapping with one key', single.full)
    prove('every child, in order', r.as_term(EntK) == want.full)
    if is_list:
        prove('the children are read', lift(private(e, '__children_called')))
    else:
        prove('the children are read', now(e, '__read_keys') == Store(R, StringVal('children'), True))


@unit('C14', [YM + 'assert_entity_completely_parsed'], assumes=DATA)
def yaml_assert():
    is_list = bool(choose(2))
    e, el, seq, R, called = yaml_entity(is_list)
    k, r = outcome(do, e.assert_entity_completely_parsed)
    if is_list:
        complete = lift(called)
    else:
        complete = z3.IsSubset(el.arrays(StrK, DataK)[0], R)
    if k == 'raise':
        prove('an element with every attribute and child read is not rejected', Not(complete), repr(r))
        prove('a ValueError', isinstance(r, ValueError), repr(r))
    else:
        prove('an element with an unread attribute or child is rejected', complete)


# ---------------------------------------------------------------- where completeness is asserted
class Ghost(Fake):
    """An entity whose calls are recorded."""

    def __init__(self, type_name='ghost', fail_=False):
        self.type_name, self.calls, self.incomplete = type_name, [], fail_

    def assert_entity_completely_parsed(self):
        self.calls.append('assert')
        if self.incomplete:
            raise ValueError('incomplete')


@unit('C14', ['launch.frontend.expose:instantiate_action', 'launch.frontend.expose:__expose_impl', 'launch.frontend.expose:expose_action',
              'launch.frontend.parser:Parser.parse_action'])
def every_action():
    """Each registered action, and one exposed now: the parse method, then the assertion, then the constructor."""
    names = sorted(expose.action_parse_methods)
    prove('actions are registered', len(names) > 9, repr(names))
    incomplete = bool(choose(2))
    result = object()

    def action(**kw):
        g.calls.append(('new', kw))
        return result

    def ghost_parse(entity, parser):
        g.calls.append(('parse', entity is g, parser is p))
        return action, {'x': 1}
    for n in [(names + ['ghost'])[choose(len(names) + 1)]]:
        g, p = Ghost(n, incomplete), object.__new__(Parser)
        if n == 'ghost':
            E().path.cleanup.append(lambda: expose.action_parse_methods.pop('ghost', None))
            do(do(expose.expose_action, n), ghost_parse)
        else:
            f = getattr(expose.action_parse_methods[n], '__wrapped__', None)
            if f is None:
                raise Unsupported('the parse method of %s is not found' % n)
            f = getattr(f, '__func__', f)
            use_contract(f, lambda *a: ghost_parse(*a[-2:]))
        patch(Parser, 'extensions_loaded', True)
        k, r = outcome(do, p.parse_action, g) if choose(2) else outcome(do, expose.instantiate_action, g, p)
        want = [('parse', True, True), 'assert']
        if incomplete:
            prove('an incomplete action is rejected', k == 'raise' and isinstance(r, ValueError) and g.calls == want, '%s: %r' % (n, g.calls))
        else:
            prove('a complete action is constructed', k == 'ok' and r is result and g.calls == want + [('new', {'x': 1})],
                  '%s: %r' % (n, g.calls))
    k, r = outcome(do, expose.instantiate_action, Ghost('never exposed'), p)
    prove('an unknown element is rejected', k == 'raise', repr(r))
    k, r = outcome(do, expose.instantiate_action, type('G', (Ghost,), {})(fresh_str('type').term.decl().name()), p)
    prove('an unknown element is rejected', k == 'raise', repr(r))


class Sub(Ent):
    """A nested entity: attributes are texts, assertion recorded."""

    def get_attr(self, name, **k):
        prove('a text attribute', k.get('data_type', str) is str and not k.get('optional'))
        return StrK.wrap(uf('attr.' + name, IntS, StrS)(self.term))

    def assert_entity_completely_parsed(self):
        ASSERTED[0].add(self)
        return None

    def vc_hash(self):
        return self.term

    @property
    def type_name(self):
        return StrK.wrap(TAG(self.term))


SubK = ObjK('nested', Sub)
ASSERTED = [None]


class Outer(Fake):
    """An entity of an action with one list of nested entities and no other optional attribute."""
    type_name = 'outer'

    def __init__(self, key, seq, **attrs):
        self.key, self.seq, self.attrs, self.reads, self.kids = key, seq, attrs, [], VList([])

    def get_attr(self, name, *, data_type=str, optional=False, can_be_str=True):
        self.reads.append(name)
        if name == self.key:
            prove('a list of entities', isinstance(data_type, type(List[int])) and issubclass(data_type.__args__[0], BaseEntity))
            return self.seq
        if name in self.attrs:
            return self.attrs[name]
        if optional:
            return None
        raise AttributeError(name)

    @property
    def children(self):
        return self.kids


class GhostParser(Fake):
    """Parsing of texts is decided for C12."""

    def parse_substitution(self, x):
        return VList([SubsK.wrap(uf('parsed', StrS, IntS)(StrK.unwrap(x)))])

    def escape_characters(self, x):
        return StrK.wrap(uf('escaped', StrS, StrS)(StrK.unwrap(x)))

    def parse_if_substitutions(self, x):
        return x


AC = launch.actions
NESTED = ((AC.DeclareLaunchArgument, 'choice', dict(name='n')), (AC.GroupAction, 'keep', {}),
          (AC.ResetLaunchConfigurations, 'keep', {}), (AC.IncludeLaunchDescription, 'arg', dict(file='f')),
          (AC.ExecuteProcess, 'env', dict(cmd='c')))


@unit('C14', ['launch.actions:%s.parse' % c.__name__ for c, _, _ in NESTED] + ['launch.action:Action.parse'],
      assumes=('texts are parsed as decided for C12',), budget=150)
def nested_entities():
    """The nested elements read by an action are asserted complete as well."""
    cls, key, attrs = NESTED[choose(len(NESTED))]
    kids = fresh_seq('nested', SubK)
    some = bool(choose(2))
    ASSERTED[0] = VSet(kind=SubK, arr=z3.K(IntS, z3.BoolVal(False)))
    use_contract(AC.ExecuteProcess._parse_cmdline, lambda *a: VList([]))
    want = SetFold.__new__(SetFold)
    want.code = lambda x: x
    Fold.__init__(want, 'all', kids, z3.K(IntS, z3.BoolVal(False)), lambda acc, x: Store(acc, x, True))
    e = Outer(key, kids if some else None, **attrs)
    k, r = outcome(do, cls.parse, e, GhostParser())
    prove('parsed', k == 'ok', '%s: %r' % (cls.__name__, r))
    prove('nested elements are read', key in e.reads, cls.__name__)
    if some:
        prove('every nested element is asserted complete', ASSERTED[0].as_term(SubK) == want.full, cls.__name__)


class Part(Sub):
    """A child of an action that takes actions."""

    @property
    def type_name(self):
        return StrK.wrap(TAG(self.term))


PartK = ObjK('part', Part)


@unit('C14', ['launch.actions:GroupAction.parse', 'launch.actions:TimerAction.parse'],
      assumes=('a list of entities is read from the children of that name in XML, from a key in YAML (units of Entity)',), budget=150)
def children_of_actions():
    """Every child entity becomes an action or was read as another thing."""
    cls, attrs = ((AC.GroupAction, {}), (AC.TimerAction, dict(period=1.0)))[choose(2)]
    kids = fresh_seq('children', PartK)
    xml = cls is AC.GroupAction and bool(choose(2))
    ASSERTED[0] = VSet(kind=SubK, arr=z3.K(IntS, z3.BoolVal(False)))
    ACT = uf('action_of', IntS, IntS)
    ActK = ObjK('action', SymObj)
    keep = StringVal('keep')

    class P(GhostParser):
        def parse_action(self, x):
            return ActK.wrap(ACT(x.term))

        def parse_if_substitutions(self, x):
            return x
    e = Outer('keep', None, **attrs)
    e.kids = kids
    want = Fold('actions of all children', kids, z3.Empty(z3.SeqSort(IntS)),
                lambda acc, x: z3.If(And(TAG(x) == keep, z3.BoolVal(xml)), acc, Concat(acc, Unit(ACT(x)))))
    if xml:
        e.seq = fresh_seq('keep', SubK)
    k, r = outcome(do, cls.parse, e, P())
    prove('parsed', k == 'ok', '%s: %r' % (cls.__name__, r))
    acts = rt.getitem(r[1], 'actions')
    prove('the action of every child, in order', acts.as_term(ActK) == want.full, cls.__name__)


class Root(Fake):
    def __init__(self, type_name, seq, fail_):
        self.type_name, self.seq, self.incomplete, self.calls = type_name, seq, fail_, []
        self.deprecated = fresh_str('deprecated') if choose(2) else None

    def get_attr(self, name, *, data_type=str, optional=False, can_be_str=True):
        prove('an optional text', name == 'deprecated' and data_type is str and optional)
        self.calls.append('attr')
        return self.deprecated

    @property
    def children(self):
        self.calls.append('children')
        return self.seq

    def assert_entity_completely_parsed(self):
        self.calls.append('assert')
        if self.incomplete:
            raise ValueError('incomplete')


@unit('C14', ['launch.frontend.parser:Parser.parse_description'],
      assumes=('LaunchDescription(actions): a description with those actions (constructor contract)',))
def description():
    kids = fresh_seq('children', EntK)
    tag = fresh_str('tag')
    e = Root(tag, kids, bool(choose(2)))
    p = object.__new__(Parser)
    ACT = uf('action_of', IntS, IntS)
    ActK = ObjK('action', SymObj)
    use_contract(Parser.parse_action, lambda self, x: ActK.wrap(ACT(x.term)))
    acts = MapFold('actions', kids, lambda x: ACT(x), ActK)
    made = object()

    def ld(actions=None, *, deprecated_reason=None):
        prove('the action of every child, in order', actions.as_term(ActK) == acts.full)
        prove('deprecated as the attribute says', deprecated_reason is None if e.deprecated is None else
              type(deprecated_reason) in (str, SymStr) and StrK.unwrap(deprecated_reason) == StrK.unwrap(e.deprecated))
        return made
    use_contract(launch.LaunchDescription, ld)
    k, r = outcome(do, p.parse_description, e)
    if k == 'raise':
        prove('only another root, or an incomplete one, is rejected', Or(tag.term != StringVal('launch'), z3.BoolVal(e.incomplete)), repr(r))
    else:
        prove('the description', r is made)
        prove('a launch element', tag.term == StringVal('launch'))
        prove('asserted complete after its children and attributes are read',
              not e.incomplete and e.calls and e.calls[-1] == 'assert' and 'children' in e.calls)
