import os

from launch.actions import (AppendEnvironmentVariable, ResetLaunchConfigurations, SetEnvironmentVariable,
                            SetLaunchConfiguration, UnsetEnvironmentVariable, UnsetLaunchConfiguration)
from .common import *

RULE = ('every action kind over names, values, separators and prepend forms (bool, text, substitution), from random initial '
        'contents, single and repeated, compared with a reference; non-trivial: distinct (action, initial contents)')


def run(h):
    r = h.rng

    def rv():
        x = r.random()
        if x < .25:
            return ('look', r.choice(NAMES[:4]))
        if x < .4:
            return ('cat', [('look', r.choice(NAMES[:4])), r.choice(TEXTS)])
        return r.choice(TEXTS)

    def val(v):
        if isinstance(v, tuple):
            return Lookup(v[1]) if v[0] == 'look' else [val(x) for x in v[1]]
        return v

    def ref(v, c):
        if isinstance(v, tuple):
            return c.get(v[1], '<unset>') if v[0] == 'look' else ''.join(ref(x, c) for x in v[1])
        return v

    def apply(o, c, e):
        k = o[0]
        if k == 'set':
            c[ref(o[1], c)] = ref(o[2], c)
            return SetLaunchConfiguration(val(o[1]), val(o[2]))
        if k == 'unset':
            c.pop(ref(o[1], c), None)
            return UnsetLaunchConfiguration(val(o[1]))
        if k == 'senv':
            e[o[1]] = ref(o[2], c)
            return SetEnvironmentVariable(o[1], val(o[2]))
        if k == 'uenv':
            e.pop(o[1], None)
            return UnsetEnvironmentVariable(o[1])
        if k == 'reset':
            if o[1] is None:
                c.clear()
                return ResetLaunchConfigurations() if r.random() < .5 else ResetLaunchConfigurations(None)
            n = {}
            for a, b in o[1]:
                n[ref(a, c)] = ref(b, c)
            a = ResetLaunchConfigurations({(tuple(val(x)) if isinstance(val(x), list) else val(x)): val(y) for x, y in o[1]})
            c.clear()
            c.update(n)
            return a
        if k == 'append':
            _, n, v, pre, sep = o
            s = os.pathsep if sep is None else ref(sep, c)
            new = ref(v, c)
            old = e.get(n)
            p = {'none': False, 'true': True, 'false': False, 'True': True, 'text true': True, 'text false': False}[pre]
            e[n] = new if old is None else (new + s + old if p else old + s + new)
            kw = {}
            if pre != 'none':
                kw['prepend'] = {'true': True, 'false': False, 'True': [TextSubstitution(text='True')], 'text true': TextSubstitution(text='true'),
                                 'text false': [TextSubstitution(text='fal'), TextSubstitution(text='se')]}[pre]
            if sep is not None:
                kw['separator'] = val(sep)
            return AppendEnvironmentVariable(n, val(v), **kw)

    def one(seq, c0, e0):
        def f():
            fresh_env(e0)
            ctx = LaunchContext()
            ctx.launch_configurations.update(c0)
            rest = {k: v for k, v in full_env().items() if not k.startswith('PYVC_')}
            c, e = dict(c0), dict(e0)
            for o in seq:
                act = apply(o, c, e)
                sub = act.visit(ctx)
                eq(sub or [], [], 'entities of %r' % (o,))
                eq(dict(ctx.launch_configurations), c, 'configurations after %r' % (o,))
                eq(env_now(), e, 'environment after %r' % (o,))
            eq({k: v for k, v in full_env().items() if not k.startswith('PYVC_')}, rest, 'other variables')
        h.case(seq[0][0], (c0, e0, seq), f)

    def op(k):
        if k == 'set':
            return (k, rv() if r.random() < .3 else r.choice(NAMES), rv())
        if k == 'unset':
            return (k, rv() if r.random() < .3 else r.choice(NAMES))
        if k == 'senv':
            return (k, r.choice(ENVN), rv())
        if k == 'uenv':
            return (k, r.choice(ENVN))
        if k == 'reset':
            return (k, None if r.random() < .2 else [(a if r.random() < .7 else ('look', a), rv()) for a in r.sample(NAMES, r.randint(0, 4))])
        return (k, r.choice(ENVN), rv(), r.choice(['none', 'true', 'false', 'True', 'text true', 'text false']),
                r.choice([None, None, '', ',', ' ', ('look', 'a'), '::']))
    kinds = ['set', 'unset', 'senv', 'uenv', 'reset', 'append']
    for k in kinds:
        for _ in range(h.n(40)):
            one([op(k)] + [op(r.choice(kinds)) for _ in range(r.randint(0, 3))],
                {n: r.choice(TEXTS) for n in r.sample(NAMES, r.randint(0, 5))},
                {n: r.choice(TEXTS) for n in r.sample(ENVN, r.randint(0, 4))})
