import warnings

from launch.conditions import (IfCondition, InvalidConditionExpressionError, LaunchConfigurationEquals,
                               LaunchConfigurationNotEquals, UnlessCondition, evaluate_condition_expression)
from launch.substitutions import LaunchConfiguration
from launch.utilities import normalize_to_list_of_substitutions
from .common import *

RULE = ('texts around the documented spellings (case, white space, near misses, other scripts), split over several '
        'substitutions; configurations set, unset, empty; non-trivial: distinct texts')
TRUE, FALSE = ('true', '1'), ('false', '0')


def run(h):
    r = h.rng

    def expr(parts, live):
        def f():
            ctx = LaunchContext()
            text = ''.join(parts)
            n = text.strip().lower()
            want = True if n in TRUE else False if n in FALSE else None
            if live:
                ctx.launch_configurations['v'] = 'wrong'
                x = LaunchConfiguration('v')
            else:
                x = list(parts)
            i, u = IfCondition(x), UnlessCondition(x)
            e = normalize_to_list_of_substitutions(x)
            if live:
                ctx.launch_configurations['v'] = text
            for _ in range(2):
                if want is None:
                    raises(InvalidConditionExpressionError, lambda: i.evaluate(ctx), 'if')
                    raises(InvalidConditionExpressionError, lambda: u.evaluate(ctx), 'unless')
                    raises(InvalidConditionExpressionError, lambda: evaluate_condition_expression(ctx, e), 'expression')
                else:
                    eq(i.evaluate(ctx), want, 'if')
                    eq(u.evaluate(ctx), not want, 'unless')
                    eq(evaluate_condition_expression(ctx, e), want, 'expression')
        h.case('expression', (parts, live), f)
    base = ['true', 'false', '1', '0', 'True', 'FALSE', 'tRuE', 'yes', 'no', 'on', 'off', 't', 'f', '', ' ', '01', '10', '-1', '1.0', '00',
            'truefalse', 'true false', 'none', 'None', 'null', '2', '+1', 'tru', 'rue', '1true', 'ｔｒｕｅ', '１', '٠', 'truе', '"true"', "'1'", 'not true', '!true', 'y', 'n',
            'true\x00', 'fALSE', '0x1', '0b1', '1e0', 'False.', 'true1', '0false']
    ws = ['', ' ', '\t', '\n', '  \r\n', '\u00a0', '\u3000', '\x0b']
    for b in base:
        for w in ws[:4]:
            expr([w + b], False)
            expr([b, w], False)
    for _ in range(h.n(300)):
        b = r.choice(ws) + ''.join(r.choice([c.lower(), c.upper()]) for c in r.choice(base)) + r.choice(ws)
        k = r.randint(0, len(b))
        expr([b[:k], b[k:]], r.random() < .5)

    def config(cls, value, expected):
        def f():
            ctx = LaunchContext()
            ctx.launch_configurations['other'] = 'x'
            if value is not None:
                ctx.launch_configurations['n'] = value
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c = cls('n', expected)
            exp = None if expected is None else ''.join(
                e if isinstance(e, str) else 'x' for e in ([expected] if isinstance(expected, str) else expected))
            want = (value == exp) if value is not None else exp is None
            eq(c.evaluate(ctx), want if cls is LaunchConfigurationEquals else not want, 'condition')
        h.case('configuration', (cls.__name__, value, expected), f)
    vals = [None, '', 'x', 'X', ' x', 'None', 'xx', '1', 'true']
    for cls in (LaunchConfigurationEquals, LaunchConfigurationNotEquals):
        for v in vals:
            for e in vals + [['x', LaunchConfiguration('other')], ['', ''], [LaunchConfiguration('other')]]:
                config(cls, v, e)
