import os

from launch.actions import (AppendEnvironmentVariable, PopEnvironment, PopLaunchConfigurations, PushEnvironment,
                            PushLaunchConfigurations, ResetEnvironment, SetEnvironmentVariable,
                            SetLaunchConfiguration, UnsetEnvironmentVariable, UnsetLaunchConfiguration)
from .common import *

RULE = ('random operation sequences (set, unset, clear, push, pop, reset; depth up to 6) on a real context, '
        'compared after every step with a reference stack machine; non-trivial: distinct sequences')


def run(h):
    def seq(ops, init_c, init_e):
        def go():
            fresh_env(init_e)
            ctx = LaunchContext()
            ctx.launch_configurations.update(init_c)
            base_full = full_env()
            c, e = dict(init_c), dict(init_e)
            cs, es = [], []
            held = []
            for i, (op, a, b) in enumerate(ops):
                what = 'after step %d %r' % (i, (op, a, b))
                if op == 'set':
                    SetLaunchConfiguration(a, b).visit(ctx)
                    c[a] = b
                elif op == 'direct':
                    ctx.launch_configurations[a] = b
                    c[a] = b
                elif op == 'hold':
                    held.append(ctx.launch_configurations)
                elif op == 'unset':
                    UnsetLaunchConfiguration(a).visit(ctx)
                    c.pop(a, None)
                elif op == 'clear':
                    ctx.launch_configurations.clear()
                    c.clear()
                elif op == 'senv':
                    SetEnvironmentVariable(a, b).visit(ctx)
                    e[a] = b
                elif op == 'aenv':
                    AppendEnvironmentVariable(a, b).visit(ctx)
                    e[a] = e[a] + os.pathsep + b if a in e else b
                elif op == 'uenv':
                    UnsetEnvironmentVariable(a).visit(ctx)
                    e.pop(a, None)
                elif op == 'pushc':
                    PushLaunchConfigurations().visit(ctx)
                    cs.append(dict(c))
                elif op == 'pushe':
                    PushEnvironment().visit(ctx)
                    es.append(dict(e))
                elif op == 'popc':
                    if cs:
                        PopLaunchConfigurations().visit(ctx)
                        c = cs.pop()
                    else:
                        raises(RuntimeError, lambda: PopLaunchConfigurations().visit(ctx), what)
                elif op == 'pope':
                    if es:
                        PopEnvironment().visit(ctx)
                        e = es.pop()
                    else:
                        raises(RuntimeError, lambda: PopEnvironment().visit(ctx), what)
                elif op == 'reset':
                    ResetEnvironment().visit(ctx)
                    e = dict(init_e)
                eq(dict(ctx.launch_configurations), c, 'configurations ' + what)
                eq(env_now(), e, 'environment ' + what)
                eq({k: v for k, v in ctx.environment.items() if k in e}, e, 'context environment ' + what)
            eq({k: v for k, v in full_env().items() if not k.startswith('PYVC_')},
               {k: v for k, v in base_full.items() if not k.startswith('PYVC_')}, 'other variables')
        h.case('scopes', (init_c, init_e, ops), go)

    kinds = ['set', 'set', 'direct', 'unset', 'clear', 'senv', 'senv', 'aenv', 'uenv', 'pushc', 'pushc', 'pushe', 'pushe',
             'popc', 'popc', 'pope', 'pope', 'reset']
    r = h.rng
    for op in kinds:
        for op2 in ('popc', 'pope', 'reset'):
            seq([('pushc', None, None), ('pushe', None, None), (op, r.choice(NAMES[:3]) if 'env' not in op else 'PYVC_A', 'v'),
                 (op2, None, None)], {'a': '1', 'b': ''}, {'PYVC_A': 'x'})
    for i in range(h.n(600)):
        ops = []
        few = i % 2
        for _ in range(r.randint(1, 24 if few else 14)):
            k = r.choice(kinds[-7:] + ['set', 'unset', 'senv', 'uenv'] if few else kinds)
            ops.append((k, r.choice((ENVN if 'env' in k else NAMES)[:2 if few else 9]), r.choice(TEXTS[:3] if few else TEXTS)))
        seq(ops, {n: r.choice(TEXTS) for n in r.sample(NAMES, r.randint(0, 4))},
            {n: r.choice(TEXTS) for n in r.sample(ENVN, r.randint(0, 3))})
