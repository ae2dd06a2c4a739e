from launch.substitutions import LocalSubstitution
from .common import *

RULE = ('random sequences of extend_globals, extend_locals, push, pop and reads on a real context against a reference; '
        'non-trivial: distinct sequences')
KEYS = ['a', 'b', 'event', 'x1', 'name']


def run(h):
    r = h.rng

    def seq(ops):
        def f():
            ctx = LaunchContext()
            g, l, st = {}, {}, []
            for i, (op, d) in enumerate(ops):
                what = 'after step %d %r' % (i, op)
                if op == 'g':
                    x = dict(d)
                    ctx.extend_globals(x)
                    x['a'] = 'changed by the caller'
                    g.update(d)
                elif op == 'l':
                    x = dict(d)
                    ctx.extend_locals(x)
                    x['a'] = 'changed by the caller'
                    l.update(d)
                elif op == 'push':
                    ctx._push_locals()
                    st.append(dict(l))
                elif op == 'pop':
                    if st:
                        ctx._pop_locals()
                        l = st.pop()
                    else:
                        raises(RuntimeError, ctx._pop_locals, what)
                if op == 'skip' or i % 3 != 2:
                    eq(dict(ctx.get_locals_as_dict()), {**g, **l}, 'locals ' + what)
                    for k in KEYS:
                        if k in l or k in g:
                            v = l[k] if k in l else g[k]
                            eq(getattr(ctx.locals, k), v, 'local ' + k)
                            if isinstance(v, str):
                                eq(LocalSubstitution(k).perform(ctx), v, 'LocalSubstitution ' + k)
                        else:
                            raises(AttributeError, lambda: getattr(ctx.locals, k), 'absent ' + k)
                    raises(AttributeError, lambda: setattr(ctx.locals, 'a', 1), 'assignment')
            eq(dict(ctx.get_locals_as_dict()), {**g, **l}, 'final locals')
        h.case('locals', ops, f)

    for _ in range(h.n(300)):
        seq([(r.choice(['g', 'l', 'l', 'push', 'push', 'pop', 'pop', 'skip']),
              {k: r.choice(TEXTS + [None, 0, (1, 2)]) for k in r.sample(KEYS, r.randint(0, 3))})
             for _ in range(r.randint(1, 14))])
