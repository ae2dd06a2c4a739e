from launch.actions import ExecuteProcess, RegisterEventHandler, TimerAction
from launch.event_handlers import OnProcessExit, OnProcessStart
from .common import *
from .proc import RULE, check_events, scripts  # noqa: F401


def run(h):
    def again(first, later, how):
        """An action is executed once, also where it is met again."""
        def f():
            told = []
            a = ExecuteProcess(cmd=['sh', '-c', first], output='log')
            hs = [RegisterEventHandler(OnProcessStart(target_action=a, on_start=lambda e, c: told.append('start'))),
                  RegisterEventHandler(OnProcessExit(target_action=a, on_exit=lambda e, c: told.append(e.returncode)))]
            rc, ls = run_ld(hs + [a, TimerAction(period=later, actions=[a]) if how == 'timer' else a], noninteractive=True)
            eq(rc, 1, 'return code')
            if how == 'timer':
                eq(told[:1], ['start'], 'starts')
            if told.count('start') > 1 or len(told) != 2 * told.count('start'):
                raise AssertionError('%r' % told)
            if not (a.get_asyncio_future().done() and not a.get_asyncio_future().cancelled()):
                raise AssertionError('not completed')
        h.case('again', (first, later, how), f)
    again('exit 0', 0.3, 'timer')
    again('sleep 20', 0.2, 'timer')
    again('exit 0', 0, 'list')
    scripts(h, check_events, 'events', 'events')
