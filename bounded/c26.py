from .common import *
from .trees import ANAMES, build, discover, gen

RULE = ('random descriptions of nested groups, conditions, includes, timers, event handlers and resets, compared with a '
        'reference search; non-trivial: distinct descriptions with an argument')


def run(h):
    r = h.rng

    def one(spec, cond):
        def f():
            table = {}
            ld = LaunchDescription(build(spec, table), **dict(deprecated_reason=r.choice(['', 'old'])) if r.random() < .4 else {})
            want = discover(spec, cond)
            for _ in range(2):      # asking again gives the same answer
                got = ld.get_launch_arguments_with_include_launch_description_actions(cond)
                eq(len(got), len(want), 'number of arguments')
                for (a, chain), (s, c, ch) in zip(got, want):
                    if table[id(a)][1] is not s:
                        raise AssertionError('listed %r, expected %r' % (table[id(a)][1], s))
                    eq(a._conditionally_included, c, 'conditionally included: %r' % (s,))
                    eq([id(table[id(x)][1]) for x in chain or []], [id(x) for x in ch], 'include chain of %r' % (s,))
                if not cond:
                    eq([id(x) for x in ld.get_launch_arguments()], [id(x) for x, _ in got], 'plain listing')
        if discover(spec, cond):
            h.case('cond' if cond else 'search', spec, f)
    D = ('decl', 'a', None, False)
    for w in (('group', [D], 'plain', False), ('group', [D], 'scoped', True), ('include', [D], [], False), ('timer', [D], None, False),
              ('include', [('include', [D, ('include', [('decl', 'b', None, False)], [], False)], [], False), ('decl', 'c', None, False)], [], True)):
        one([w, ('decl', 'a', 'x', True), ('decl', 'd', None, True)], False)
    for _ in range(h.n(500)):
        one(gen(r), r.random() < .2)
