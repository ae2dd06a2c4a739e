import asyncio

import launch
from launch import Action, Condition
from launch.actions import (EmitEvent, GroupAction, LogInfo, OpaqueFunction, RegisterEventHandler, SetLaunchConfiguration,
                            UnsetLaunchConfiguration)
from launch.conditions import IfCondition, UnlessCondition
from launch.event_handler import BaseEventHandler
from launch.event_handlers import OnExecutionComplete
from launch.events import ExecutionComplete
from .common import *

RULE = ('actions with every condition outcome, execution outcome, kind of pending work and interested handlers; completion '
        'events counted; non-trivial: distinct combinations')


class Cond(Condition):
    def __init__(self, v, log):
        super().__init__()
        self.v, self.log = v, log

    def evaluate(self, context):
        self.log.append('cond')
        if isinstance(self.v, Exception):
            raise self.v
        return self.v


def run(h):
    def events(ctx):
        out = []
        while not ctx._event_queue.empty():
            out.append(ctx._event_queue.get_nowait())
        return out

    def one(cond, result, fut, handlers):
        def f():
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                log = []
                ctx = LaunchContext()
                c = {'none': None, 'true': Cond(True, log), 'false': Cond(False, log),
                     'raise': Cond(ValueError('c'), log)}[cond]
                if cond in ('if true', 'if false', 'unless true', 'unless false'):
                    c = None
                future = None if fut == 'none' else loop.create_future()
                if fut == 'done':
                    future.set_result(1)
                out = [LogInfo(msg='x')] if result == 'list' else None

                def ex(context):
                    if result == 'raise':
                        raise KeyError('x')
                    return out
                a = Recorder(log, 'exec', fn=ex, future=future, condition=c)
                b = Recorder(log, 'other')
                if 'this' in handlers:
                    ctx.register_event_handler(OnExecutionComplete(target_action=a, on_completion=[]))
                if 'other' in handlers:
                    ctx.register_event_handler(OnExecutionComplete(target_action=b, on_completion=[]))
                if 'any' in handlers:
                    ctx.register_event_handler(OnExecutionComplete(on_completion=[]))
                if 'never' in handlers:
                    ctx.register_event_handler(BaseEventHandler(matcher=lambda e: False))
                for i in range(2):
                    del log[:]
                    runs = cond in ('none', 'true')
                    if cond == 'raise':
                        raises(ValueError, lambda: a.visit(ctx), 'condition error')
                    elif runs and result == 'raise':
                        raises(KeyError, lambda: a.visit(ctx), 'execution error')
                    else:
                        eq(a.visit(ctx) is (out if runs else None), True, 'result of the visit')
                    eq(log, (['cond'] if cond != 'none' else []) + (['exec'] if runs else []), 'evaluations and executions')
                    want = 1 if runs and ({'this', 'any'} & set(handlers)) else 0
                    if fut == 'none':
                        pass
                    else:
                        if fut != 'done' or i == 0:
                            eq(events(ctx), [], 'announced before the work is done')
                        if fut in ('result', 'exception', 'cancel') and i == 0:
                            pass
                        if not future.done():
                            if i == 0:
                                loop.run_until_complete(asyncio.sleep(0))
                                eq(events(ctx), [], 'announced before the work is done')
                            {'result': lambda: future.set_result(1), 'exception': lambda: future.set_exception(OSError()),
                             'cancel': future.cancel}[fut]()
                        loop.run_until_complete(asyncio.sleep(0))
                        loop.run_until_complete(asyncio.sleep(0))
                        if fut == 'exception':
                            future.exception()
                    got = events(ctx)
                    eq(len(got), want, 'number of completions announced')
                    for e in got:
                        eq(isinstance(e, ExecutionComplete) and e.action is a, True, 'completion of this action')
            finally:
                loop.close()
                asyncio.set_event_loop(None)
        h.case('action', (cond, result, fut, handlers), f)

    for cond in ('none', 'true', 'false', 'raise'):
        for result in ('none', 'list', 'raise'):
            for fut in ('none', 'done', 'result', 'exception', 'cancel'):
                for handlers in ([], ['this'], ['other'], ['any', 'never'], ['this', 'any'], ['never', 'other']):
                    one(cond, result, fut, handlers)

    def changing(how, fut, result):
        def f():
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                ctx = LaunchContext()
                future = loop.create_future() if fut else None
                hd = OnExecutionComplete(on_completion=[])

                def ex(context):
                    context.register_event_handler(hd) if how == 'register' else context.unregister_event_handler(hd)
                    if result == 'raise':
                        raise KeyError('x')
                if how == 'unregister':
                    ctx.register_event_handler(hd)
                a = Recorder([], 'exec', fn=ex, future=future)
                if result == 'raise':
                    raises(KeyError, lambda: a.visit(ctx), 'execution error')
                else:
                    a.visit(ctx)
                if fut:
                    eq(events(ctx), [], 'announced before the work is done')
                    future.set_result(1)
                    loop.run_until_complete(asyncio.sleep(0))
                eq(len(events(ctx)), how == 'register', 'completions announced to the handlers there are once it is executed')
            finally:
                loop.close()
                asyncio.set_event_loop(None)
        h.case('changing', (how, fut, result), f)
    for how in ('register', 'unregister'):
        for fut in (False, True):
            for result in ('none', 'raise'):
                changing(how, fut, result)

    def texts(kind, text, want):
        def f():
            ctx = LaunchContext()
            log = []
            a = Recorder(log, 'x', condition=kind(text))
            a.visit(ctx)
            eq(log, ['x'] if want else [], 'executed')
        h.case('condition', (kind.__name__, text), f)
    for t in ('true', 'True', '1', ' TRUE '):
        texts(IfCondition, t, True)
        texts(UnlessCondition, t, False)
    for t in ('false', 'False', '0', ' FALSE\n'):
        texts(IfCondition, t, False)
        texts(UnlessCondition, t, True)

    # whichever action it is, a false condition, which need not be a true object, keeps it from being executed
    def kinds(i):
        class Falsy(Cond):
            def __bool__(self):
                return False

        def f():
            from launch import actions as AC, descriptions, event_handler
            from launch_testing.actions import GTest, PyTest
            hd = event_handler.EventHandler(matcher=lambda e: False)

            async def co(context):
                pass
            log = []
            c = Falsy(False, log)
            k = dict(condition=c)
            a = [lambda: AC.AppendEnvironmentVariable('A', 'b', **k), lambda: AC.DeclareLaunchArgument('a', default_value='x', **k),
                 lambda: AC.EmitEvent(event=launch.events.Shutdown(), **k), lambda: AC.ExecuteProcess(cmd=['true'], **k),
                 lambda: AC.ExecuteLocal(process_description=descriptions.Executable(cmd=['true']), **k),
                 lambda: AC.GroupAction([LogInfo(msg='x')], **k), lambda: AC.IncludeLaunchDescription('/none.launch.py', **k),
                 lambda: AC.LogInfo(msg='x', **k), lambda: AC.OpaqueCoroutine(coroutine=co, **k),
                 lambda: AC.OpaqueFunction(function=lambda c: [], **k), lambda: AC.PopEnvironment(**k),
                 lambda: AC.PopLaunchConfigurations(**k), lambda: AC.PushEnvironment(**k), lambda: AC.PushLaunchConfigurations(**k),
                 lambda: AC.RegisterEventHandler(hd, **k), lambda: AC.ResetEnvironment(**k),
                 lambda: AC.ResetLaunchConfigurations({}, **k), lambda: AC.SetEnvironmentVariable('A', 'b', **k),
                 lambda: AC.SetLaunchConfiguration('a', 'b', **k), lambda: AC.Shutdown(**k),
                 lambda: AC.TimerAction(period=1.0, actions=[], **k), lambda: AC.UnregisterEventHandler(hd, **k),
                 lambda: AC.UnsetEnvironmentVariable('A', **k), lambda: AC.UnsetLaunchConfiguration('a', **k),
                 lambda: GTest(path='true', **k), lambda: PyTest(path='x', **k)][i]()
            ctx = LaunchContext()
            executed = []
            type(a).execute, old = (lambda s, c: executed.append(s)), type(a).__dict__.get('execute')
            try:
                a.visit(ctx)
            finally:
                if old is None:
                    del type(a).execute
                else:
                    type(a).execute = old
            eq((executed, log), ([], ['cond']), 'a false condition of %s: executed, evaluated' % type(a).__name__)
        h.case('kind', i, f)
    for i in range(26):
        kinds(i)

    # every kind of action is gated and announced in a real run
    def real(cond, n):
        def f():
            seen = []
            acts = [LogInfo(msg='x', condition=cond()), SetLaunchConfiguration('a', 'b', condition=cond()),
                    OpaqueFunction(function=lambda c: None, condition=cond()),
                    GroupAction([LogInfo(msg='in')], condition=cond()), UnsetLaunchConfiguration('a', condition=cond())]
            hd = [RegisterEventHandler(OnExecutionComplete(
                target_action=a, on_completion=lambda e, c, i=i: seen.append((i, e.action is acts[i])))) for i, a in enumerate(acts)]
            rc, ls = run_ld(hd + acts, noninteractive=True)
            eq(seen, [(i, True) for i in range(len(acts))] if n else [], 'completions in a run')
            eq(rc, 0, 'return code')
        h.case('run', n, f)
    real(lambda: None, 1)
    real(lambda: IfCondition('1'), 1)
    real(lambda: IfCondition('0'), 0)
    real(lambda: UnlessCondition('0'), 1)
    real(lambda: UnlessCondition('1'), 0)
