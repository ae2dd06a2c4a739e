import asyncio
import logging
import sys

import launch.logging
from launch.actions import LogInfo, OpaqueCoroutine, OpaqueFunction, Shutdown, TimerAction
from launch_testing.actions import GTest
from launch_testing.actions.test import Test
from .common import *

RULE = ('function, coroutine and log actions with every form of arguments, executed once and several times in real runs, and test actions '
        'whose process ends before or after the timeout; non-trivial: distinct arguments and repetitions')


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def run(h):
    forms = [('none', lambda: None, ()), ('empty', lambda: [], ()), ('list', lambda: ['a', 'b'], ('a', 'b')), ('tuple', lambda: ('a',), ('a',)),
             ('generator', lambda: (c for c in 'abc'), ('a', 'b', 'c')), ('text', lambda: 'ab', ('a', 'b')), ('falsy', lambda: [0, '', None], (0, '', None))]
    words = [None, {}, {'k': 1}, {'z': None, 'a': []}]

    def call(name, mk, want, kw, times, ignore):
        def f():
            log, seen = [], []
            res = Recorder(log, 'result')

            def fn(*a, **k):
                seen.append((a, k))
                return [res]

            async def co(*a, **k):
                seen.append((a, k))
            k = {}
            if mk() is not None:
                k['args'] = mk()
            if kw is not None:
                k['kwargs'] = kw
            if ignore is None:
                act = OpaqueFunction(function=fn, **k)
            else:
                act = OpaqueCoroutine(coroutine=co, ignore_context=ignore, **k)
            rc, ls = run_ld([act] * times, noninteractive=True)
            eq(rc, 0, 'return code')
            first = () if ignore else (ls.context,)
            eq(seen, [(first + want, kw or {})] * times, 'calls')
            eq(log, ['result'] * (times if ignore is None else 0), 'visits of the result')
        h.case('calls', (name, repr(kw), times, ignore), f)
    for name, mk, want in forms:
        for kw in words:
            for times in (1, 2):
                for ignore in (None, False, True):
                    call(name, mk, want, kw, times, ignore)

    def pending(times):
        def f():
            log = []

            async def co(context, i=None):
                log.append('start')
                try:
                    await asyncio.sleep(30)
                finally:
                    log.append('end')
            oc = OpaqueCoroutine(coroutine=co)
            rc, ls = run_ld([oc] * times + [TimerAction(period=0.05, actions=[Shutdown()])], noninteractive=True)
            eq((rc, sorted(log)), (0, ['end'] * times + ['start'] * times), 'coroutines canceled by the shutdown')
        h.case('shutdown', times, f)
    for times in (1, 2, 3):
        pending(times)

    def ending():
        log = []

        async def co(context):
            await asyncio.sleep(0.1)
            log.append('end')
        rc, ls = run_ld([OpaqueCoroutine(coroutine=co)], noninteractive=True)
        eq((rc, log), (0, ['end']), 'the coroutine is waited for')
    h.case('pending', None, ending)

    def lines(parts, times):
        def f():
            out = Lines()
            g = launch.logging.get_logger('launch.user')
            old, lv = list(g.handlers), g.level
            g.handlers[:] = [out]
            g.setLevel(logging.INFO)
            try:
                ctx = LaunchContext()
                ctx.launch_configurations['a'] = 'A'
                a = LogInfo(msg=[Lookup(p[1:]) if p[:1] == '$' else p for p in parts])
                for i in range(times):
                    ctx.launch_configurations['n'] = str(i)
                    a.visit(ctx)
            finally:
                g.handlers[:] = old
                g.setLevel(lv)
            want = [''.join({'$a': 'A', '$n': str(i)}.get(p, p) for p in parts) for i in range(times)]
            eq(out.lines, want, 'lines of the log')
        h.case('log', (parts, times), f)
    for parts in (['x'], [''], ['a ', '$a'], ['$a', '$n'], ['100% {x} %s', '$n'], ['two\nlines', ' '], ['$n', '', '$a', ' x']):
        for times in (1, 2):
            lines(parts, times)

    def tests(cmd, timeout, times, ends):
        def f():
            from launch.event_handlers import OnProcessExit
            from launch.actions import RegisterEventHandler
            got = []
            acts = [Test(cmd=cmd, timeout=timeout) if timeout is not None else Test(cmd=cmd) for _ in range(times)]
            hd = RegisterEventHandler(OnProcessExit(on_exit=lambda e, c: got.append((e.action, e.returncode))))
            rc, ls = run_ld([hd] + acts, noninteractive=True)
            eq(rc, 0, 'return code')
            eq([sum(1 for a, _ in got if a is x) for x in acts], [1] * times, 'exits')
            eq([r for a, r in got], [ends] * times, 'return codes')
        h.case('test', (cmd[-1], timeout, times), f)
    tests(['true'], None, 1, 0)
    tests(['true'], 30.0, 2, 0)
    tests(['sleep', '30'], 0.1, 1, -2)
    tests(['sleep', '30'], '0.1', 2, -2)
    tests(['sleep', '0.4'], 2.0, 2, 0)
    tests(['false'], 30.0, 1, 1)
    tests(['sh', '-c', 'exit 3'], '30', 2, 3)

    def gtest():
        g = GTest(path='/some/path')
        eq([s.text for x in g.cmd for s in x], ['/some/path'], 'command')
        eq((g.path, g.timeout), ('/some/path', None), 'path')
        eq(GTest(path='p', timeout=3.0).timeout, 3.0, 'timeout')
    h.case('gtest', None, gtest)
