"""C02: group actions scope, forward and preset launch configurations."""
from .common import *
from launch.actions import GroupAction, SetLaunchConfiguration
import launch.actions.group_action
import launch.actions.reset_launch_configurations

GA = 'launch.actions:GroupAction.'
SETLC = uf('set_launch_configuration', IntS, IntS, IntS)


class Act(SymObj):
    py_class = launch.Action


class SetLC(SymObj):
    """SetLaunchConfiguration(k, v), known through its contract (C11)."""
    py_class = SetLaunchConfiguration


ActK, SetK = ObjK('action', Act), ObjK('setlc', SetLC)


def _unit_object(p):
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
        return RefK.wrap(p.arg(0))
    return None


def _run(result, ctx, env, S, M, order, kk, inside):
    """Visit the returned entities in order; the given actions are arbitrary."""
    if result is None:
        return
    seen = 0
    lst = result if type(result) is VList else VList(list(result))
    parts = seq_parts(z3.simplify(lst.as_term(RefK)))
    for p in parts:
        o = None
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            o = RefK.wrap(p.arg(0))
        if isinstance(o, launch.Action) and not isinstance(o, SymObj):
            sub = do(o.visit, ctx)
            if sub is not None:
                raise Unsupported('nested entities')
            continue
        if p.eq(S.term) or E().entailed(p == S.term, timeout=3000)[0] == 'proved':
            seen += 1
            inside()
            continue
        if p.eq(M.full) or E().entailed(p == M.full, timeout=3000)[0] == 'proved':
            cur = ctx.launch_configurations
            f = DictFold('set', order, snap(cur), lambda a, v, x: _put(a, v, EXPAND(_k(x, kk), a, v), EXPAND(_v(x, kk), a, v)))
            n = f.result
            cur.vc_havoc((StrK, StrK))
            cur.pres, cur.val = n.pres, n.val
            _LASTSET.append(f)
            continue
        raise Unsupported('cannot identify a part of the returned entities: %s' % p)
    prove('the actions of the group are visited exactly once', seen == 1, 'seen %d' % seen)


_LASTSET = []


def _k(x, kk):
    return kk.sort.accessor(0, 0)(x)


def _v(x, kk):
    return kk.sort.accessor(0, 1)(x)


def _put(p, v, k, val):
    return z3.Store(p, k, z3.BoolVal(True)), z3.Store(v, k, val)


@unit('C02', [GA + '__init__', GA + 'get_sub_entities', GA + 'execute',
              'launch.actions:ResetLaunchConfigurations.execute', 'launch.actions:ResetEnvironment.execute',
              'launch.actions:PushLaunchConfigurations.execute', 'launch.actions:PopLaunchConfigurations.execute',
              'launch.actions:PushEnvironment.execute', 'launch.actions:PopEnvironment.execute'],
      assumes=NORM_ASSUMES + ('SetLaunchConfiguration(k, v) stores the expansion of v under the expansion of k (C11)',))
def group_scopes():
    env = environ()
    init_env = snap(env)
    ctx = new_context()
    ctx.launch_configurations.update(fresh_dict('configs'))
    havoc(env)
    expand_contracts(ctx)
    use_contract(SetLaunchConfiguration, lambda k, v: SetK.wrap(SETLC(SubsK.unwrap(k), SubsK.unwrap(v))))
    d0, e0 = snap(ctx.launch_configurations), snap(env)
    P, order, kk = presets('presets')
    S = fresh_seq('actions', ActK)
    M = MapFold('sets', order, lambda x: SETLC(_k(x, kk), _v(x, kk)), SetK)
    mode = choose(5)
    scoped = mode in (0, 1, 4)
    forwarding = mode in (0, 2, 4)
    kw = {}
    if mode != 4:
        kw = dict(scoped=scoped, forwarding=forwarding)       # 4: the defaults
    g = new(GroupAction, S, launch_configurations=P, **kw)
    if scoped and not forwarding:
        empty = empty_dict(StrK, StrK)
        exp = DictFold('kept', order, empty, lambda a, v, x: _put(a, v, expand(_k(x, kk), d0), expand(_v(x, kk), d0)))
    else:
        exp = DictFold('preset', order, d0, lambda a, v, x: _put(a, v, EXPAND(_k(x, kk), a, v), EXPAND(_v(x, kk), a, v)))
    after = []
    r = do(g.execute, ctx)
    if choose(2):
        r = do(g.execute, ctx)           # executing a group again gives the same entities
    same('executing the group itself changes no configuration', ctx.launch_configurations, d0)
    same('executing the group itself changes no variable', env, e0)

    def inside():
        if _LASTSET:
            # the sets were applied by contract: same recursion, same start
            f = _LASTSET.pop()
            a0, b0 = f.at(z3.IntVal(0)), exp.at(z3.IntVal(0))
            if forwarding or not scoped:
                prove('presets are set on top of the surrounding configurations',
                      And(a0[0] == b0[0], a0[1] == b0[1]))
            else:
                fail('presets are evaluated against the surrounding configurations')
        else:
            same('configurations visible inside', ctx.launch_configurations, exp.result)
        same('environment visible inside', env, init_env if scoped and not forwarding else e0)
        havoc(ctx.launch_configurations)
        havoc(env)
        after.append((snap(ctx.launch_configurations), snap(env)))
    del _LASTSET[:]
    _run(r, ctx, env, S, M, order, kk, inside)
    if scoped:
        same('configurations restored after the group', ctx.launch_configurations, d0)
        same('environment restored after the group', env, e0)
    elif after:
        same('configurations persist after the group', ctx.launch_configurations, after[0][0])
        same('environment persists after the group', env, after[0][1])
    prove('no scope left behind', True)


@unit('C02', [GA + '__init__', GA + 'get_sub_entities'], assumes=NORM_ASSUMES)
def group_without_presets():
    env = environ()
    init_env = snap(env)
    ctx = new_context()
    ctx.launch_configurations.update(fresh_dict('configs'))
    havoc(env)
    expand_contracts(ctx)
    d0, e0 = snap(ctx.launch_configurations), snap(env)
    P, order, kk = presets('unused')
    S = fresh_seq('actions', ActK)
    M = MapFold('sets', order, lambda x: SETLC(_k(x, kk), _v(x, kk)), SetK)
    mode = choose(4)
    scoped, forwarding = bool(mode & 1), bool(mode & 2)
    kw = dict(launch_configurations=None) if choose(2) else {}
    g = new(GroupAction, S, scoped=scoped, forwarding=forwarding, **kw)
    r = do(g.execute, ctx)
    after = []

    def inside():
        if scoped and not forwarding:
            prove('nothing is visible inside', Not(ctx.launch_configurations.has(fresh_str('q')).term)
                  if ctx.launch_configurations.symbolic and hasattr(ctx.launch_configurations.has(fresh_str('q')), 'term')
                  else len(ctx.launch_configurations.items_ or ()) == 0)
            same('initial environment inside', env, init_env)
        else:
            same('configurations inside', ctx.launch_configurations, d0)
            same('environment inside', env, e0)
        havoc(ctx.launch_configurations)
        havoc(env)
        after.append((snap(ctx.launch_configurations), snap(env)))
    _run(r, ctx, env, S, M, order, kk, inside)
    if scoped:
        same('configurations restored after the group', ctx.launch_configurations, d0)
        same('environment restored after the group', env, e0)
    elif after:
        same('configurations persist after the group', ctx.launch_configurations, after[0][0])
        same('environment persists after the group', env, after[0][1])
