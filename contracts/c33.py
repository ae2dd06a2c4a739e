"""C33: an element of a launch file means the action that its attributes describe."""
import inspect
from typing import List

from .common import *
from .c14 import Ent
import launch.actions as AC
from launch.conditions import IfCondition, UnlessCondition

TEXTS = ('texts are parsed as decided for C12, attributes read as for C14',)
NUMBERS = (0.0, 0.25, 1e-07, 1e16, 300.0, -0.5, -1e-09)


class Parsed(Fake):
    """What a text is parsed into."""

    def __init__(self, text, how):
        self.text, self.how = text, how


class GhostParser(Fake):
    def parse_substitution(self, x):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('no text: %r' % (x,))
        return VList([Parsed(x, 'parsed')])

    def escape_characters(self, x):
        if not isinstance(x, (str, SymStr)):
            raise TypeError('no text: %r' % (x,))
        return Parsed(x, 'escaped')

    def parse_if_substitutions(self, x):
        return VList([Parsed(x, 'parsed')]) if isinstance(x, (str, SymStr)) else x

    def parse_action(self, x):
        return Parsed(x, 'action')


class Nested(Fake):
    def __init__(self, tag, **attrs):
        self.type_name, self.attrs = tag, attrs

    def get_attr(self, name, *, data_type=str, optional=False, can_be_str=True):
        prove('a text', data_type is str)
        if name in self.attrs:
            return self.attrs[name]
        if optional:
            return None
        raise AttributeError(name)

    def assert_entity_completely_parsed(self):
        return None


class Element(Fake):
    """An element with typed attributes; a text stands for any value of another type where texts are let through."""
    type_name = 'element'

    def __init__(self, attrs, kids):
        self.attrs, self.children, self.read = attrs, VList(kids), set()

    def get_attr(self, name, *, data_type=str, optional=False, can_be_str=True):
        if name not in self.attrs:
            if optional:
                return None
            raise AttributeError(name)
        typ, value, text = self.attrs[name]
        if typ is list:
            if not (isinstance(data_type, type(List[int])) and isinstance(data_type.__args__[0], type)):
                raise TypeError(name)
            return value
        if data_type is not typ:
            raise TypeError('%s is no %r' % (name, data_type))
        if text is not None:
            if not can_be_str:
                raise TypeError('%s is a text' % name)
            return text
        return value


def same_text(got, text):
    return StrK.unwrap(got) == StrK.unwrap(text)


def every(xs):
    """All of them, terms or truth values."""
    r = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            r.append(x)
    return And(*r) if r else True


def is_parsed(got, text, how='parsed'):
    if how == 'escaped':
        return isinstance(got, Parsed) and got.how == how and same_text(got.text, text)
    if type(got) is not list and not isinstance(got, (VList, tuple)):
        return False
    items = rt.to_vlist(got).items
    return items is not None and len(items) == 1 and isinstance(items[0], Parsed) and items[0].how == how \
        and same_text(items[0].text, text)


SUBST, ESC, BOOL, INT, FLOAT, TIME, BOOLS, FLOATS, EXIT, CMD = 'subst esc bool int float time bools floats exit cmd'.split()
# attribute, argument, how it is read, required
OPTIONS = {
    AC.SetLaunchConfiguration: (('name', 'name', SUBST, 1), ('value', 'value', SUBST, 1)),
    AC.SetEnvironmentVariable: (('name', 'name', SUBST, 1), ('value', 'value', SUBST, 1)),
    AC.UnsetEnvironmentVariable: (('name', 'name', SUBST, 1),),
    AC.AppendEnvironmentVariable: (('name', 'name', SUBST, 1), ('value', 'value', SUBST, 1), ('prepend', 'prepend', BOOLS, 0),
                                   ('separator', 'separator', SUBST, 0)),
    AC.LogInfo: (('message', 'msg', SUBST, 1),),
    AC.Shutdown: (('reason', 'reason', SUBST, 0),),
    AC.ResetEnvironment: (),
    AC.ResetLaunchConfigurations: (('keep', 'launch_configurations', 'dict', 0),),
    AC.DeclareLaunchArgument: (('name', 'name', ESC, 1), ('default', 'default_value', SUBST, 0), ('description', 'description', ESC, 0),
                               ('choice', 'choices', 'choices', 0)),
    AC.IncludeLaunchDescription: (('file', 'launch_description_source', SUBST, 1), ('arg', 'launch_arguments', 'pairs', 0)),
    AC.GroupAction: (('scoped', 'scoped', BOOL, 0), ('forwarding', 'forwarding', BOOL, 0), ('keep', 'launch_configurations', 'dict', 0)),
    AC.TimerAction: (('period', 'period', FLOATS, 1), ('cancel_on_shutdown', 'cancel_on_shutdown', BOOLS, 0)),
    AC.ExecuteProcess: (('cmd', 'cmd', CMD, 1), ('cwd', 'cwd', SUBST, 0), ('name', 'name', SUBST, 0), ('on_exit', 'on_exit', EXIT, 0),
                        ('launch-prefix', 'prefix', SUBST, 0), ('output', 'output', SUBST, 0), ('respawn', 'respawn', SUBST, 0),
                        ('respawn_max_retries', 'respawn_max_retries', INT, 0), ('respawn_delay', 'respawn_delay', FLOAT, 0),
                        ('sigkill_timeout', 'sigkill_timeout', TIME, 0), ('sigterm_timeout', 'sigterm_timeout', TIME, 0),
                        ('shell', 'shell', BOOL, 0), ('emulate_tty', 'emulate_tty', BOOL, 0), ('env', 'additional_env', 'dict', 0)),
}
TYPE = {BOOL: bool, INT: int, FLOAT: float, TIME: float, BOOLS: bool, FLOATS: float}
ACTS = (AC.GroupAction, AC.TimerAction)


def default(cls, kw):
    for c in cls.__mro__:
        p = inspect.signature(c.__init__).parameters.get(kw) if '__init__' in c.__dict__ else None
        if p is not None and p.default is not p.empty:
            return p.default
    return None


def fits(kind, got, spec, cls):
    """Whether the argument is what the attribute gives."""
    typ, value, text = spec
    if kind in (SUBST, ESC):
        return is_parsed(got, value, 'escaped' if kind == ESC else 'parsed')
    if kind == CMD:
        return isinstance(got, Parsed) and got.how == 'words' and same_text(got.text, value)
    if kind in (BOOLS, FLOATS) and text is not None:
        return is_parsed(got, text)
    if kind in (BOOL, BOOLS):
        return type(got) in (bool, SymBool) and BoolK.unwrap(got) == BoolK.unwrap(value)
    if kind == INT:
        return type(got) in (int, SymNum) and IntK.unwrap(got) == IntK.unwrap(value)
    if kind in (FLOAT, FLOATS):
        return type(got) in (float, SymNum) and RealK.unwrap(got) == RealK.unwrap(value)
    if kind == TIME:
        return type(got) is str and got == str(value)
    if kind == EXIT:
        items = rt.to_vlist(got).items
        return items is not None and len(items) == 1 and isinstance(items[0], AC.Shutdown)
    kids = value.items
    if kind == 'choices':
        items = rt.to_vlist(got).items
        return len(items) == len(kids) and every(is_parsed(x, k.attrs['value'], 'escaped') for x, k in zip(items, kids))
    pairs = list(got.items()) if kind == 'dict' else [rt.to_vlist(x).items for x in rt.to_vlist(got).items]
    return len(pairs) == len(kids) and every(x for (a, b), k in zip(pairs, kids)
                                             for x in (is_parsed(a, k.attrs['name']), is_parsed(b, k.attrs['value'])))


def attribute(kind):
    """An attribute of that kind, and whether it is in order."""
    if kind in (SUBST, ESC, CMD):
        return (str, fresh_str('text'), None), True
    if kind == EXIT:
        t = ('shutdown', 'respawn', 'Shutdown', '')[choose(4)]
        return (str, t, None), t == 'shutdown'
    if kind in ('dict', 'choices', 'pairs'):
        n = choose(3)
        return (list, VList([Nested('x', name=fresh_str('name'), value=fresh_str('value')) for _ in range(n)]), None), True
    if choose(2):
        return (TYPE[kind], None, fresh_str('text')), kind in (BOOLS, FLOATS)
    if kind in (BOOL, BOOLS):
        return (bool, fresh_bool('value'), None), True
    if kind == INT:
        return (int, fresh_int('value'), None), True
    if kind == FLOATS:
        return (float, fresh_real('value'), None), True
    if kind == FLOAT:
        v = fresh_real('value')
        return (float, v, None), RealK.unwrap(v) >= 0
    v = NUMBERS[choose(len(NUMBERS))]
    return (float, v, None), v >= 0


def element(cls):
    options = OPTIONS[cls]
    attrs, fine = {}, z3.BoolVal(True)
    focus = choose(len(options) + 1)
    rest = bool(choose(2))
    for i, (name, kw, kind, required) in enumerate(options):
        if required or i == focus:
            attrs[name], ok = attribute(kind)
            fine = And(fine, ok)
        elif rest and kind in (SUBST, ESC, BOOL, INT):
            attrs[name] = {SUBST: (str, fresh_str('text'), None), ESC: (str, fresh_str('text'), None),
                           BOOL: (bool, fresh_bool('value'), None), INT: (int, fresh_int('value'), None)}[kind]
    kids = [Nested('let'), Nested('group')][:choose(3)] if cls in ACTS else []
    return attrs, fine, kids


def words(*a):
    return Parsed(a[-2], 'words')


SHAPES = ('with one attribute of any kind, or with it and all texts, numbers and truth values; up to two nested elements',)


def options_of(classes):
    quiet()
    cls = classes[choose(len(classes))]
    attrs, fine, kids = element(cls)
    use_contract(AC.ExecuteProcess._parse_cmdline, words)
    e = Element(attrs, kids)
    k, r = outcome(do, cls.parse, e, GhostParser())
    who = cls.__name__
    if k == 'raise':
        prove('only values of another type, negative ones or another on_exit are rejected', Not(fine), '%s: %r' % (who, r))
        return
    prove('values of another type, negative ones and another on_exit are rejected', fine, who)
    got, kwargs = rt.to_vlist(r).items
    prove('the action of the element', got is cls)
    for name, kw, kind, required in OPTIONS[cls]:
        if name in attrs:
            if cls is AC.Shutdown:      # an empty reason may be none
                if kw in kwargs:
                    prove('the argument of the attribute', fits(kind, kwargs[kw], attrs[name], cls), '%s.%s' % (who, name))
                else:
                    prove('a reason is handed on', attrs[name][1].term == StringVal(''))
                continue
            prove('every attribute given is an argument', kw in kwargs, '%s.%s' % (who, name))
            prove('the argument of the attribute', fits(kind, kwargs[kw], attrs[name], cls), '%s.%s' % (who, name))
        elif kw in kwargs:
            prove('the default of the action else', type(kwargs[kw]) in (type(None), bool, int, float, str) and
                  (kwargs[kw] is None or kwargs[kw] == default(cls, kw)), '%s.%s' % (who, name))
    more = {'condition'} | ({'actions'} if cls in ACTS else set())
    prove('no other arguments', set(kwargs) <= {o[1] for o in OPTIONS[cls]} | more, '%s: %s' % (who, sorted(kwargs)))
    if cls in ACTS:
        acts = rt.to_vlist(kwargs['actions']).items
        prove('the actions of the children', len(acts) == len(kids) and all(a.how == 'action' and a.text is x for a, x in zip(acts, kids)), who)
    prove('no condition', kwargs.get('condition') is None)


def target(c):
    return 'launch.actions:%s.parse' % c.__name__


BIG = (AC.ExecuteProcess, AC.GroupAction)
SMALL = tuple(c for c in OPTIONS if c not in BIG)


@unit('C33', [target(c) for c in SMALL] + ['launch.action:Action.parse'], assumes=TEXTS + SHAPES, budget=200)
def actions():
    options_of(SMALL)


@unit('C33', [target(AC.GroupAction), 'launch.action:Action.parse'], assumes=TEXTS + SHAPES, budget=200)
def groups():
    options_of((AC.GroupAction,))


@unit('C33', [target(AC.ExecuteProcess), 'launch.action:Action.parse'], assumes=TEXTS + SHAPES, budget=300)
def executables():
    options_of((AC.ExecuteProcess,))


@unit('C33', [target(c) for c in OPTIONS] + ['launch.action:Action.parse'], assumes=TEXTS, budget=150)
def conditions():
    """if and unless are the condition of every action."""
    cls = list(OPTIONS)[choose(len(OPTIONS))]
    quiet()
    attrs = {}
    for name, kw, kind, required in OPTIONS[cls]:
        if required:
            attrs[name] = (float, 1.0, None) if kind == FLOATS else (str, fresh_str('text'), None)
    given = (('if',), ('unless',), ('if', 'unless'), ())[choose(4)]
    for n in given:
        attrs[n] = (str, fresh_str('condition'), None)
    made = []

    class Cond(Fake):
        def __init__(self, kind, x):
            self.kind, self.expression = kind, x
            made.append(self)
    use_contract(AC.ExecuteProcess._parse_cmdline, words)
    use_contract(IfCondition, lambda predicate_expression: Cond('if', predicate_expression))
    use_contract(UnlessCondition, lambda predicate_expression: Cond('unless', predicate_expression))
    k, r = outcome(do, cls.parse, Element(attrs, []), GhostParser())
    if len(given) == 2:
        prove('not both', k == 'raise')
        return
    prove('parsed', k == 'ok', '%s: %r' % (cls.__name__, r))
    c = rt.to_vlist(r).items[1].get('condition')
    if not given:
        prove('no condition', c is None)
    else:
        prove('the condition', every([isinstance(c, Cond) and c.kind == given[0], isinstance(c, Cond) and is_parsed(c.expression, attrs[given[0]][1])]), cls.__name__)
