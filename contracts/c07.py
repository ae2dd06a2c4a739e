"""C07: conditions gate actions; completion is announced exactly once."""
from .common import *
import asyncio
import launch.descriptions
from launch import Action, Condition, EventHandler
from launch.events import ExecutionComplete

AV = 'launch.action:Action.visit'


class Fut(Fake):
    """A future: completion callbacks run when it is done."""

    def __init__(self):
        self.cbs = []
        self.ended = choose(4)          # pending, finished, failed, cancelled

    def done(self):
        return self.ended > 0

    def cancelled(self):
        return self.ended == 3

    def exception(self):
        if self.ended == 0:
            raise asyncio.InvalidStateError()
        if self.ended == 3:
            raise asyncio.CancelledError()
        return RuntimeError() if self.ended == 2 else None

    def add_done_callback(self, cb, *, context=None):
        self.cbs.append(cb)

    def remove_done_callback(self, cb):
        self.cbs.remove(cb)


def _world():
    class W:
        pass
    w = W()
    w.ctx = new_context()
    w.cond_calls = w.exec_calls = w.asked = 0
    w.cond_val = fresh_bool('condition')
    w.would = fresh_bool('would_handle')
    w.before = fresh_bool('would_handle_before')      # executing may change which handlers there are
    w.result = fresh_any('result')
    w.error = KeyError('execute')
    w.cond_error = ValueError('condition')
    w.emitted = []
    w.has_cond = choose(2)
    w.cond_raises = w.has_cond and choose(2) and choose(2)
    w.raises = choose(2)
    w.fut = Fut() if choose(2) else None

    class C(Condition):
        def evaluate(self, context):
            w.cond_calls += 1
            prove('the condition is evaluated for the context', context is w.ctx)
            if w.cond_raises:
                raise w.cond_error
            return w.cond_val

    class A(Action):
        def execute(self, context):
            w.exec_calls += 1
            prove('the action is executed in the context', context is w.ctx)
            prove('the condition is evaluated before the execution', w.cond_calls == (1 if w.has_cond else 0))
            prove('nothing is announced before the execution', not w.emitted and not (w.fut and w.fut.cbs))
            if w.raises:
                raise w.error
            return w.result

        def get_asyncio_future(self):
            return w.fut
    w.action = new(A, condition=new(C) if w.has_cond else None)

    def would(c, event):
        prove('interest in the completion of this action is asked', c is w.ctx and isinstance(event, ExecutionComplete)
              and event.action is w.action)
        return w.would if w.exec_calls else w.before

    def emit_sync(c, event):
        prove('the event is emitted in the context', c is w.ctx)
        w.emitted.append(event)
    LC = launch.LaunchContext
    use_contract(LC.would_handle_event, would)
    use_contract(LC.emit_event_sync, emit_sync)
    return w


@unit('C07', [AV, 'launch.action:Action.__init__', 'launch.events.execution_complete:ExecutionComplete.__init__'],
      assumes=['condition, execution result and completion handle of the action: arbitrary (Condition.evaluate: C08)',
               'would_handle_event (C05), emit_event_sync (C16)',
               'a future runs its callbacks when it finishes (asyncio)'])
def visit():
    w = _world()
    k, x = outcome(do, w.action.visit, w.ctx)
    runs = z3.BoolVal(True) if not w.has_cond else (z3.BoolVal(False) if w.cond_raises else w.cond_val.term)
    prove('executed exactly if there is no condition or it is true', z3.BoolVal(w.exec_calls == 1) == runs)
    prove('executed at most once', w.exec_calls in (0, 1))
    prove('the condition is evaluated once', w.cond_calls == (1 if w.has_cond else 0))
    if w.cond_raises:
        prove('an error of the condition is reported', k == 'raise' and x is w.cond_error)
    elif w.exec_calls == 0:
        prove('an action that is not executed returns nothing', k == 'ok' and x is None)
    elif w.raises:
        prove('an error of the execution is reported', k == 'raise' and x is w.error, repr((k, x)))
    else:
        prove('the result is passed on', And(z3.BoolVal(k == 'ok'), AnyK.unwrap(x if k == 'ok' else None) == w.result.term))
    now = len(w.emitted)
    later = 0
    if w.fut is not None:
        pending, w.fut.ended = not w.fut.ended, w.fut.ended or 1
        for cb in list(w.fut.cbs):
            do(cb, w.fut)
        later = len(w.emitted) - now
    if w.exec_calls == 0:
        prove('an action that is not executed announces nothing', now == 0 and later == 0)
        return
    if w.fut is None:
        prove('announced at once, exactly once, if a handler is interested', If(w.would.term, now == 1, now == 0))
    else:
        if pending:
            prove('not announced while work is pending', now == 0)
        prove('announced exactly once when the work is finished, if a handler is interested',
              If(w.would.term, now + later == 1, now + later == 0))
    for e in w.emitted:
        prove('the completion of this action is announced', isinstance(e, ExecutionComplete) and e.action is w.action)


@unit('C07', [AV])
def default_execution():
    """The base class: executing does nothing and returns nothing."""
    ctx = new_context()
    a = new(Action)
    out = []
    use_contract(launch.LaunchContext.would_handle_event, lambda c, e: True)
    use_contract(launch.LaunchContext.emit_event_sync, lambda c, e: out.append(e))
    r = do(a.visit, ctx)
    prove('no result', r is None)
    prove('announced once', len(out) == 1 and out[0].action is a)


A = 'launch.actions.'
CONSTRUCTORS = [A + x for x in (
    'append_environment_variable:AppendEnvironmentVariable.__init__', 'declare_launch_argument:DeclareLaunchArgument.__init__',
    'emit_event:EmitEvent.__init__', 'execute_local:ExecuteLocal.__init__', 'execute_process:ExecuteProcess.__init__',
    'group_action:GroupAction.__init__', 'include_launch_description:IncludeLaunchDescription.__init__', 'log_info:LogInfo.__init__',
    'opaque_coroutine:OpaqueCoroutine.__init__', 'opaque_function:OpaqueFunction.__init__', 'pop_environment:PopEnvironment.__init__',
    'pop_launch_configurations:PopLaunchConfigurations.__init__', 'push_environment:PushEnvironment.__init__',
    'push_launch_configurations:PushLaunchConfigurations.__init__', 'register_event_handler:RegisterEventHandler.__init__',
    'reset_environment:ResetEnvironment.__init__', 'reset_launch_configurations:ResetLaunchConfigurations.__init__',
    'set_environment_variable:SetEnvironmentVariable.__init__', 'set_launch_configuration:SetLaunchConfiguration.__init__',
    'shutdown_action:Shutdown.__init__', 'timer_action:TimerAction.__init__', 'unregister_event_handler:UnregisterEventHandler.__init__',
    'unset_environment_variable:UnsetEnvironmentVariable.__init__', 'unset_launch_configuration:UnsetLaunchConfiguration.__init__')] + [
    'launch_testing.actions.test:Test.__init__',
    'launch_testing.actions.gtest:GTest.__init__', 'launch_testing.actions.pytest:PyTest.__init__']


def makers(t):
    """How to construct each kind of action, all texts being arbitrary."""
    import launch.actions as AC
    import launch_testing.actions as TA
    from launch_testing.actions.test import Test as TestAction
    from launch.events import Shutdown
    handler = EventHandler(matcher=lambda e: True)

    async def coroutine(context):
        pass
    return [
        (AC.AppendEnvironmentVariable, (t, t), {}), (AC.DeclareLaunchArgument, (t,), {}), (AC.EmitEvent, (), dict(event=Shutdown())),
        (AC.ExecuteLocal, (), dict(process_description=launch.descriptions.Executable(cmd=['x']))), (AC.ExecuteProcess, (), dict(cmd=[t])),
        (AC.GroupAction, ([],), {}), (AC.IncludeLaunchDescription, (t,), {}), (AC.LogInfo, (), dict(msg=t)),
        (AC.OpaqueCoroutine, (), dict(coroutine=coroutine)), (AC.OpaqueFunction, (), dict(function=lambda c: None)),
        (AC.PopEnvironment, (), {}), (AC.PopLaunchConfigurations, (), {}), (AC.PushEnvironment, (), {}),
        (AC.PushLaunchConfigurations, (), {}), (AC.RegisterEventHandler, (handler,), {}), (AC.ResetEnvironment, (), {}),
        (AC.ResetLaunchConfigurations, ({},), {}), (AC.SetEnvironmentVariable, (t, t), {}), (AC.SetLaunchConfiguration, (t, t), {}),
        (AC.Shutdown, (), {}), (AC.TimerAction, (), dict(period=1.0, actions=[])), (AC.UnregisterEventHandler, (handler,), {}),
        (AC.UnsetEnvironmentVariable, (t,), {}), (AC.UnsetLaunchConfiguration, (t,), {}), 
        (TestAction, (), dict(cmd=[t])), (TA.GTest, (), dict(path=t)), (TA.PyTest, (), dict(path=t))]


@unit('C07', CONSTRUCTORS, assumes=['one way of constructing each kind of action stands for all, the condition being its own argument'])
def keeps_condition():
    """Whichever action it is, its condition is the one it was given."""
    ms = makers(fresh_str('text'))
    cls, a, k = ms[choose(len(ms))]

    class C(Condition):
        def __bool__(self):
            return bool(choose(2))
    c = C() if choose(2) else None
    r, x = outcome(new, cls, *a, condition=c, **k)
    prove('constructed', r == 'ok', repr(x))
    prove('the condition of the action', x.condition is c, cls.__name__)
