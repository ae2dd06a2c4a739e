"""C01: scopes of launch configurations and environment are restored exactly."""
from .common import *
from launch.actions import (PopEnvironment, PopLaunchConfigurations, PushEnvironment,
                            PushLaunchConfigurations, ResetEnvironment)

CTX = 'launch.launch_context:LaunchContext.'


def _ctx(deep=True):
    ctx, env = context()
    base = {}
    if deep:
        for n in ('__launch_configurations_stack', '__environment_stack'):
            base[n] = entity_stack(n)
            set_private(ctx, n, base[n])
            base[n] = (base[n], base[n].term)
    return ctx, env, base


def _stack_unchanged(base, which):
    st, t = base[which]
    prove('stack below untouched', st.as_term(RefK) == t)


@unit('C01', [CTX + '_push_launch_configurations', CTX + '_pop_launch_configurations',
              CTX + 'launch_configurations', 'launch.actions:PushLaunchConfigurations.execute',
              'launch.actions:PopLaunchConfigurations.execute'])
def configurations_scope():
    ctx, env, base = _ctx()
    d0, e0 = snap(ctx.launch_configurations), snap(env)
    do(new(PushLaunchConfigurations).visit, ctx)
    same('saving changes no configuration', ctx.launch_configurations, d0)
    same('saving configurations leaves environment', env, e0)
    havoc(ctx.launch_configurations)        # any in-place changes inside the scope
    havoc(env)
    e1 = snap(env)
    do(new(PopLaunchConfigurations).visit, ctx)
    same('restored configurations', ctx.launch_configurations, d0)
    same('restoring configurations leaves environment', env, e1)
    _stack_unchanged(base, '__launch_configurations_stack')
    _stack_unchanged(base, '__environment_stack')
    # the restored mapping is live and independent of what was saved
    k = fresh_str('k')
    v = fresh_str('v')
    ctx.launch_configurations[k] = v
    prove('restored mapping is writable', ctx.launch_configurations[k] == v)


@unit('C01', [CTX + '_push_launch_configurations', CTX + '_pop_launch_configurations'])
def configurations_nested():
    ctx, env, base = _ctx()
    d0 = snap(ctx.launch_configurations)
    do(ctx._push_launch_configurations)
    havoc(ctx.launch_configurations)
    d1 = snap(ctx.launch_configurations)
    do(ctx._push_launch_configurations)
    havoc(ctx.launch_configurations)
    do(ctx._pop_launch_configurations)
    same('inner scope restored', ctx.launch_configurations, d1)
    havoc(ctx.launch_configurations)
    do(ctx._push_launch_configurations)
    do(ctx._pop_launch_configurations)
    do(ctx._pop_launch_configurations)
    same('outer scope restored', ctx.launch_configurations, d0)
    _stack_unchanged(base, '__launch_configurations_stack')


@unit('C01', [CTX + '_push_environment', CTX + '_pop_environment', CTX + 'environment',
              'launch.actions:PushEnvironment.execute', 'launch.actions:PopEnvironment.execute'])
def environment_scope():
    ctx, env, base = _ctx()
    d0, e0 = snap(ctx.launch_configurations), snap(env)
    do(new(PushEnvironment).visit, ctx)
    same('saving changes no variable', env, e0)
    same('saving environment leaves configurations', ctx.launch_configurations, d0)
    havoc(env)
    havoc(ctx.launch_configurations)
    d1 = snap(ctx.launch_configurations)
    do(new(PopEnvironment).visit, ctx)
    same('restored environment', env, e0)
    same('restored environment via context', ctx.environment, e0)
    same('restoring environment leaves configurations', ctx.launch_configurations, d1)
    _stack_unchanged(base, '__environment_stack')
    _stack_unchanged(base, '__launch_configurations_stack')


@unit('C01', [CTX + '_push_environment', CTX + '_pop_environment'])
def environment_nested():
    ctx, env, base = _ctx()
    e0 = snap(env)
    do(ctx._push_environment)
    havoc(env)
    e1 = snap(env)
    do(ctx._push_environment)
    havoc(env)
    do(ctx._pop_environment)
    same('inner environment restored', env, e1)
    havoc(env)
    do(ctx._pop_environment)
    same('outer environment restored', env, e0)
    _stack_unchanged(base, '__environment_stack')


@unit('C01', [CTX + '__init__', CTX + '_reset_environment', 'launch.actions:ResetEnvironment.execute'])
def environment_reset():
    env = environ()
    e0 = snap(env)
    ctx = new_context()
    ctx.launch_configurations.update(fresh_dict('configs'))
    d0 = snap(ctx.launch_configurations)
    havoc(env)
    do(ctx._push_environment)
    e1 = snap(env)
    do(new(ResetEnvironment).visit, ctx)
    same('reset gives the initial environment', env, e0)
    same('reset leaves configurations', ctx.launch_configurations, d0)
    havoc(env)
    do(new(ResetEnvironment).visit, ctx)
    same('a second reset gives the initial environment again', env, e0)
    do(ctx._pop_environment)
    same('a saved environment survives resets', env, e1)


@unit('C01', [CTX + '_pop_launch_configurations', CTX + '_pop_environment'])
def pop_without_push():
    ctx, env = context()
    d0, e0 = snap(ctx.launch_configurations), snap(env)
    if choose(2):
        # saving the other kind of scope does not help
        do(ctx._push_environment)
        k, x = outcome(do, ctx._pop_launch_configurations)
    else:
        do(ctx._push_launch_configurations)
        k, x = outcome(do, ctx._pop_environment)
    prove('RuntimeError', k == 'raise' and isinstance(x, RuntimeError), repr((k, x)))
    same('configurations unchanged', ctx.launch_configurations, d0)
    same('environment unchanged', env, e0)
