"""C08: condition expressions accept exactly the documented spellings."""
from .common import *
from launch.conditions import (IfCondition, InvalidConditionExpressionError, LaunchConfigurationEquals,
                               LaunchConfigurationNotEquals, UnlessCondition, evaluate_condition_expression)

C = 'launch.conditions.'
IMPL = C + 'evaluate_condition_expression_impl:evaluate_condition_expression'


def norm_text(t):
    """strip and lower-case, with the facts about them that the property needs."""
    strip, lower = uf('str.strip', StrS, StrS), uf('str.lower', StrS, StrS)
    s = SymStr(t)
    n = s.strip().lower().term
    m = s.lower().strip().term
    E().assume(n == m)                                     # stripping and lower-casing commute
    for lit in ('true', 'false', '1', '0'):
        x = StringVal(lit)
        E().assume(SymStr(x).strip().term == x) if not isinstance(SymStr(x).strip(), str) else None
        E().assume(Implies(t == x, n == x))
    E().assume(Implies(t == StringVal(''), n == StringVal('')))
    return n


def one_of(n, *lits):
    return Or(*[n == StringVal(x) for x in lits])



class Subs2(Subs):
    def vc_iter(self):
        return VList([])


def _text():
    ctx, env = context()
    expand_contracts(ctx)
    x = fresh_obj('expression', ObjK('expression', Subs2))
    t = expand(x, ctx.launch_configurations)
    return ctx, x, t, norm_text(t)


def _decides(k, x, n, negated=False):
    T, F = one_of(n, 'true', '1'), one_of(n, 'false', '0')
    if negated:
        T, F = F, T
    if k == 'raise':
        prove('only an undocumented spelling is an error', Not(Or(T, F)))
        prove('the error is an invalid-condition error', isinstance(x, InvalidConditionExpressionError), repr(x))
    else:
        prove('documented spellings only', Or(T, F))
        prove('the documented truth value', lift(x) == T)


@unit('C08', [IMPL], assumes=NORM_ASSUMES + ('str.strip and str.lower: uninterpreted, they commute and fix true, false, 1, 0',))
def expression():
    ctx, x, t, n = _text()
    k, r = outcome(do, evaluate_condition_expression, ctx, x)
    _decides(k, r, n)


@unit('C08', [C + 'if_condition:IfCondition.__init__', C + 'if_condition:IfCondition._predicate_func',
              'launch.condition:Condition.evaluate', IMPL], assumes=NORM_ASSUMES)
def if_condition():
    ctx, x, t, n = _text()
    c = new(IfCondition, x)
    havoc(ctx.launch_configurations)          # expanded when evaluated, not when constructed
    t = expand(x, ctx.launch_configurations)
    n = norm_text(t)
    k, r = outcome(do, c.evaluate, ctx)
    _decides(k, r, n)


@unit('C08', [C + 'unless_condition:UnlessCondition.__init__', C + 'unless_condition:UnlessCondition._predicate_func',
              'launch.condition:Condition.evaluate', IMPL], assumes=NORM_ASSUMES)
def unless_condition():
    ctx, x, t, n = _text()
    k, r = outcome(do, new(UnlessCondition, x).evaluate, ctx)
    _decides(k, r, n, negated=True)


def _cfg(cls, negated):
    ctx, env = context()
    expand_contracts(ctx)
    name = fresh_str('name')
    x = fresh_obj('expected', SubsK) if choose(2) else None
    c = new(cls, name, x)
    d = ctx.launch_configurations
    p, v = d.arrays(StrK, StrK)
    r = do(c.evaluate, ctx)
    nm = name.term
    if x is None:
        want = Not(p[nm])
    else:
        want = And(p[nm], v[nm] == expand(x, d))
    prove('holds exactly if the configuration has the expected value', lift(r) == (Not(want) if negated else want))


@unit('C08', [C + 'launch_configuration_equals:LaunchConfigurationEquals.__init__',
              C + 'launch_configuration_equals:LaunchConfigurationEquals._predicate_func'], assumes=NORM_ASSUMES)
def configuration_equals():
    _cfg(LaunchConfigurationEquals, False)


@unit('C08', [C + 'launch_configuration_not_equals:LaunchConfigurationNotEquals.__init__',
              C + 'launch_configuration_not_equals:LaunchConfigurationNotEquals._predicate_func'],
      assumes=NORM_ASSUMES)
def configuration_not_equals():
    _cfg(LaunchConfigurationNotEquals, True)


@unit('C08', ['launch.condition:Condition.evaluate', 'launch.condition:Condition.__init__'])
def predicate():
    from launch import Condition
    ctx = new_context()
    b = fresh_bool('b')
    got = []
    r = do(new(Condition, predicate=lambda c: (got.append(c), b)[1]).evaluate, ctx)
    prove('the predicate decides', lift(r) == b.term)
    prove('it is asked once about the context', len(got) == 1 and got[0] is ctx)
    prove('no predicate: false', do(new(Condition).evaluate, ctx) is False)
