"""C11: actions that change configurations or environment change exactly what they name."""
from .common import *
from launch.actions import (AppendEnvironmentVariable, ResetLaunchConfigurations, SetEnvironmentVariable,
                            SetLaunchConfiguration, UnsetEnvironmentVariable, UnsetLaunchConfiguration)
import launch.utilities.type_utils as TU

A = 'launch.actions:'
EXPBOOL = uf('expand_bool', IntS, CfgS[0], CfgS[1], BoolS)


def _start():
    ctx, env = context()
    expand_contracts(ctx)
    return ctx, env, snap(ctx.launch_configurations), snap(env)


def _subs(*names):
    return [fresh_obj(n, SubsK) for n in names]


def _put(d, k, v):
    r = snap(d)
    r.pres, r.val = z3.Store(r.pres, k, z3.BoolVal(True)), z3.Store(r.val, k, v)
    return r


def _drop(d, k):
    r = snap(d)
    r.pres = z3.Store(r.pres, k, z3.BoolVal(False))
    return r


@unit('C11', [A + 'SetLaunchConfiguration.__init__', A + 'SetLaunchConfiguration.execute'], assumes=NORM_ASSUMES)
def set_configuration():
    ctx, env, d0, e0 = _start()
    n, v = _subs('name', 'value')
    a = new(SetLaunchConfiguration, n, v)
    do(a.visit, ctx)
    same('exactly the named configuration is set', ctx.launch_configurations, _put(d0, expand(n, d0), expand(v, d0)))
    same('environment untouched', env, e0)
    d1 = snap(ctx.launch_configurations)
    do(a.visit, ctx)        # expanded again, against the configurations of that moment
    same('a second execution expands again', ctx.launch_configurations, _put(d1, expand(n, d1), expand(v, d1)))


@unit('C11', [A + 'UnsetLaunchConfiguration.__init__', A + 'UnsetLaunchConfiguration.execute'], assumes=NORM_ASSUMES)
def unset_configuration():
    ctx, env, d0, e0 = _start()
    n, = _subs('name')
    k, x = outcome(do, new(UnsetLaunchConfiguration, n).visit, ctx)
    prove('unsetting never fails', k == 'ok', repr(x))
    same('exactly the named configuration is removed', ctx.launch_configurations, _drop(d0, expand(n, d0)))
    same('environment untouched', env, e0)


@unit('C11', [A + 'SetEnvironmentVariable.__init__', A + 'SetEnvironmentVariable.execute'], assumes=NORM_ASSUMES)
def set_variable():
    ctx, env, d0, e0 = _start()
    n, v = _subs('name', 'value')
    do(new(SetEnvironmentVariable, n, v).visit, ctx)
    same('exactly the named variable is set', env, _put(e0, expand(n, d0), expand(v, d0)))
    same('configurations untouched', ctx.launch_configurations, d0)


@unit('C11', [A + 'UnsetEnvironmentVariable.__init__', A + 'UnsetEnvironmentVariable.execute'], assumes=NORM_ASSUMES)
def unset_variable():
    ctx, env, d0, e0 = _start()
    n, = _subs('name')
    k, x = outcome(do, new(UnsetEnvironmentVariable, n).visit, ctx)
    prove('unsetting never fails', k == 'ok', repr(x))
    same('exactly the named variable is removed', env, _drop(e0, expand(n, d0)))
    same('configurations untouched', ctx.launch_configurations, d0)


@unit('C11', [A + 'AppendEnvironmentVariable.__init__', A + 'AppendEnvironmentVariable.execute'],
      assumes=NORM_ASSUMES + ('perform_typed_substitution(ctx, x, bool) is the boolean x expands to (C13)',))
def append_variable():
    ctx, env, d0, e0 = _start()
    n, v = _subs('name', 'value')
    kw = {}
    m = choose(4)
    if m == 0:
        pre = z3.BoolVal(False)
    elif m < 3:
        kw['prepend'] = m == 1
        pre = z3.BoolVal(m == 1)
    else:
        p, = _subs('prepend')
        kw['prepend'] = p
        pre = EXPBOOL(p.term, *d0.arrays())

    def norm_typed(x, t, *a):
        prove('prepend is a boolean', t is bool)
        return x

    def perf_typed(c, x, t, *a):
        prove('prepend is a boolean', t is bool)
        if isinstance(x, bool):
            return x
        return BoolK.wrap(EXPBOOL(x.term, *ctx.launch_configurations.arrays()))
    use_contract(TU.normalize_typed_substitution, norm_typed)
    use_contract(TU.perform_typed_substitution, perf_typed)
    if choose(2):
        s, = _subs('separator')
        kw['separator'] = s
        sep = expand(s, d0)
    else:
        import os
        sep = z3.StringVal(os.pathsep)
    do(new(AppendEnvironmentVariable, n, v, **kw).visit, ctx)
    name, val = expand(n, d0), expand(v, d0)
    old = e0.val[name]
    want = If(e0.pres[name], If(pre, Concat(val, sep, old), Concat(old, sep, val)), val)
    same('exactly the named variable gets the joined value', env, _put(e0, name, want))
    same('configurations untouched', ctx.launch_configurations, d0)


@unit('C11', [A + 'ResetLaunchConfigurations.__init__', A + 'ResetLaunchConfigurations.execute'], assumes=NORM_ASSUMES)
def reset_configurations():
    ctx, env, d0, e0 = _start()
    P, order, kk = presets('given')
    k0 = kk.sort.accessor(0, 0)
    k1 = kk.sort.accessor(0, 1)
    F = DictFold('kept', order, empty_dict(StrK, StrK),
                 lambda a, v, x: (z3.Store(a, expand(k0(x), d0), z3.BoolVal(True)),
                                  z3.Store(v, expand(k0(x), d0), expand(k1(x), d0))))
    do(new(ResetLaunchConfigurations, P).visit, ctx)
    same('exactly the given configurations remain, evaluated before', ctx.launch_configurations, F.result)
    same('environment untouched', env, e0)


@unit('C11', [A + 'ResetLaunchConfigurations.__init__', A + 'ResetLaunchConfigurations.execute'])
def reset_to_nothing():
    ctx, env, d0, e0 = _start()
    m = choose(3)
    a = new(ResetLaunchConfigurations) if m == 0 else new(ResetLaunchConfigurations, None if m == 1 else {})
    do(a.visit, ctx)
    same('no configuration remains', ctx.launch_configurations, empty_dict(StrK, StrK))
    same('environment untouched', env, e0)
