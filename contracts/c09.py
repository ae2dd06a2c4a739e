"""C09: declared launch arguments."""
from .common import *
from launch.actions import DeclareLaunchArgument

D = 'launch.actions.declare_launch_argument:DeclareLaunchArgument.'


class DefSubs(Subs):
    """A substitution as default value."""

    def vc_isinstance(self, c):
        cs = c if isinstance(c, (tuple, list)) else (c,)
        return any(x is launch.Substitution for x in cs)


def _setup():
    ctx, env = context()
    expand_contracts(ctx)
    name = fresh_str('name')
    kind = choose(3)
    d0 = snap(ctx.launch_configurations)
    default = dterm = None
    if kind == 1:
        default = fresh_str('default')
        dterm = default.term
    elif kind == 2:
        default = fresh_obj('default', ObjK('default', DefSubs))
        dterm = expand(default, d0)
    choices = cterm = None
    if choose(2):
        choices = fresh_seq('choices', StrK)
        cterm = choices.term
        E().assume(z3.Length(cterm) > 0)
    return ctx, env, name, kind, default, dterm, choices, cterm, d0


@unit('C09', [D + '__init__', D + 'execute'], assumes=NORM_ASSUMES)
def execution():
    ctx, env, name, kind, default, dterm, choices, cterm, d0 = _setup()
    e0 = snap(env)
    kw = {}
    if default is not None:
        kw['default_value'] = default
    if choices is not None:
        kw['choices'] = choices
    if choose(2):
        kw['description'] = fresh_str('description')
    k, a = outcome(new, DeclareLaunchArgument, name, **kw)
    bad = kind == 1 and choices is not None
    if k == 'raise':
        if not bad:
            fail('a declaration is only rejected for its default', repr(a))
        else:
            prove('a declaration is rejected only if its textual default is not a choice', Not(z3.Contains(cterm, Unit(dterm))))
            prove('the rejection is a RuntimeError', isinstance(a, RuntimeError), repr(a))
        return
    if bad:
        prove('a textual default of a declaration is one of the choices', z3.Contains(cterm, Unit(dterm)))
    prove('the name is reported', StrK.unwrap(a.name) == name.term)
    prove('choices are reported', (a.choices is None) == (choices is None))
    nm = name.term
    p0, v0 = d0.arrays(StrK, StrK)
    present = p0[nm]
    k, x = outcome(do, a.execute, ctx)
    p1, v1 = ctx.launch_configurations.arrays(StrK, StrK)
    value = If(present, v0[nm], dterm) if dterm is not None else v0[nm]
    avail = z3.BoolVal(True) if dterm is not None else present
    allowed = z3.Contains(cterm, Unit(value)) if cterm is not None else z3.BoolVal(True)
    same('environment untouched', env, e0)
    if k == 'ok':
        prove('success only with a given value or a default', avail)
        prove('success only with an allowed value', allowed)
        want = snap(d0)
        want.pres, want.val = z3.Store(p0, nm, z3.BoolVal(True)), z3.Store(v0, nm, value)
        same('the given value wins, else the expanded default is stored', ctx.launch_configurations, want)
    else:
        prove('an error only without a value or with one that is not allowed', Not(And(avail, allowed)), repr(x))
        prove('the error is a RuntimeError', isinstance(x, RuntimeError), repr(x))
        prove('a required argument that is not given stores nothing',
              Implies(Not(avail), And(p1 == p0, v1 == v0)))
        prove('a given value is left untouched', Implies(present, And(p1 == p0, v1 == v0)))
        q = E().fresh('other', StrS)
        prove('other configurations are left alone', Implies(q != nm, And(p1[q] == p0[q], Implies(p0[q], v1[q] == v0[q]))))


@unit('C09', [D + '__init__', D + 'description', D + 'choices', D + 'name'],
      assumes=NORM_ASSUMES + ('up to three choices with texts of their own stand for any',))
def declared():
    context()
    choices = [['a'], ['a', "b'c"], ['', 'x y', 'z']][choose(3)] if choose(2) else None
    given = fresh_str('description') if choose(2) else None
    kw = {} if choices is None else {'choices': choices}
    if given is not None:
        kw['description'] = given
    name = fresh_str('name')
    a = new(DeclareLaunchArgument, name, **kw)
    d = StrK.unwrap(a.description)
    prove('the name', StrK.unwrap(a.name) == name.term)
    prove('the choices', a.choices == choices)
    if given is not None:
        prove('the description begins with the one given', z3.PrefixOf(given.term, d))
        if choices is None:
            prove('and is that', d == given.term)
    else:
        prove('there always is a description', z3.Length(d) > 0)
    for c in choices or []:
        prove('the description tells each choice', z3.Contains(d, StringVal(repr(c))))
    default = fresh_str('default') if choose(2) else None
    k, x = outcome(new, DeclareLaunchArgument, name, choices=[], **({} if default is None else {'default_value': default}))
    prove('no choices at all are rejected', k == 'raise' and isinstance(x, RuntimeError), repr(x))


@unit('C09', [D + '__init__', D + 'execute'], assumes=NORM_ASSUMES)
def repeated():
    """Declaring and executing twice: the first value stays."""
    ctx, env = context()
    expand_contracts(ctx)
    name = fresh_str('name')
    x, y = fresh_obj('d1', ObjK('default', DefSubs)), fresh_obj('d2', ObjK('default', DefSubs))
    do(new(DeclareLaunchArgument, name, default_value=x).visit, ctx)
    d1 = snap(ctx.launch_configurations)
    do(new(DeclareLaunchArgument, name, default_value=y).visit, ctx)
    same('a value once stored wins over later defaults', ctx.launch_configurations, d1)
    prove('the argument has a value', d1.has(name))
