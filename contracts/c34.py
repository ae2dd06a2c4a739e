"""C34: function, coroutine, log and test actions do what they were given, at every execution."""
import asyncio
import sys

from .common import *
import launch.actions
import launch.actions.log_info
import launch.event_handlers
import launch.substitutions
import launch_testing.actions.test
from launch.actions import LogInfo, OpaqueCoroutine, OpaqueFunction
from launch.events import Shutdown
from launch.events.process import ProcessExited, ProcessStarted
from launch_testing.actions import GTest, PyTest
from launch_testing.actions.test import Test
from launch.utilities import type_utils  # noqa: F401

A = 'launch.actions.'
TM = launch_testing.actions.test
SINK = []


class Log(Fake):
    def __init__(self, name):
        self.name, self.lines = name, []

    def info(self, msg, *args):
        prove('the text is not a format', not args)
        self.lines.append(msg)

    def debug(self, *a):
        pass


@unit('C34', [A + 'log_info:LogInfo.__init__', A + 'log_info:LogInfo.execute', A + 'log_info:LogInfo.msg'],
      assumes=('a substitution expands to an arbitrary text that depends on the context (C12)', 'up to three substitutions stand for any number'))
def log():
    logs = {}
    use_contract(launch.logging.get_logger, lambda name=None: logs.setdefault(name, Log(name)))
    ctx = Ctx()
    seen = []

    class Sub(launch.Substitution):
        def perform(self, context):
            prove('expanded in the context', context is ctx)
            seen.append((self, fresh_str('text')))
            return seen[-1][1]
    subs = [new(Sub) for _ in range(choose(4))]
    a = new(LogInfo, msg=subs)
    lines = lambda: [(n, x) for n, g in logs.items() for x in g.lines]      # noqa: E731
    prove('nothing is logged beforehand', not lines() and not seen)
    for i in range(1 + choose(2)):
        del seen[:]
        n = len(lines())
        r = do(a.execute, ctx)
        prove('nothing else to do', r is None)
        prove('each substitution is expanded once, in order', [s for s, _ in seen] == subs)
        got = lines()
        prove('one line', len(got) == n + 1)
        prove('to the log of the user', got[-1][0] == 'launch.user')
        want = Concat(StringVal(''), StringVal(''), *[t.term for _, t in seen])
        prove('the expanded text', StrK.unwrap(got[-1][1]) == want)


class Ctx(Fake):
    def __init__(self):
        self.handlers, self.asyncio_loop = [], Loop()

    def register_event_handler(self, h):
        self.handlers.append(h)

    def perform_substitution(self, s):
        return do(s.perform, self)


class Loop(Fake):
    def __init__(self):
        self.tasks = []

    def create_task(self, coro):
        t = Task(coro)
        self.tasks.append(t)
        return t


class Task(Fake):
    def __init__(self, coro):
        self.coro, self.canceled = coro, 0

    def cancel(self, *a):
        self.canceled += 1
        return True

    def cancelled(self):
        return False

    def done(self):
        return False


def arguments():
    """(the arguments given, what the function has to get)"""
    x, y = fresh_any('x'), fresh_any('y')
    k = choose(5)
    args = [None, [], [x, y], (y,), iter([x, y])][k]
    want = [[], [], [x, y], [y], [x, y]][k]
    kw = [None, {}, {'key': x, 'other': y}][choose(3)]
    d = {}
    if args is not None:
        d['args'] = args
    if kw is not None:
        d['kwargs'] = kw
    return d, want, dict(kw or {})


def got_exactly(call, first, want, kw):
    a, k = call
    a = list(a)
    if first is not None:
        prove('the context comes first', len(a) > 0 and a[0] is first)
        a = a[1:]
    prove('all arguments in order', len(a) == len(want) and all(p is q for p, q in zip(a, want)))
    prove('the keyword arguments', list(k) == list(kw) and all(k[n] is kw[n] for n in kw))


@unit('C34', [A + 'opaque_function:OpaqueFunction.__init__', A + 'opaque_function:OpaqueFunction.execute'],
      assumes=('the arguments are only handed on: up to two, in any kind of iterable, stand for any number',))
def function():
    quiet()
    ctx = Ctx()
    calls, results, error = [], [], KeyError('function')
    fails = choose(2)

    def f(*a, **k):
        calls.append((a, k))
        if fails:
            raise error
        results.append([None, [], fresh_any('result')][choose(3)])
        return results[-1]
    d, want, kw = arguments()
    a = new(OpaqueFunction, function=f, **d)
    prove('not called beforehand', not calls)
    for i in range(1 + choose(2)):
        k, r = outcome(do, a.execute, ctx)
        prove('called once for each execution', len(calls) == i + 1)
        got_exactly(calls[i], ctx, want, kw)
        if fails:
            prove('an error is reported', k == 'raise' and r is error)
        else:
            prove('its result is passed on', k == 'ok' and r is results[i], repr(r))


@unit('C34', [A + 'opaque_coroutine:OpaqueCoroutine.__init__', A + 'opaque_coroutine:OpaqueCoroutine.execute',
              A + 'opaque_coroutine:OpaqueCoroutine.get_asyncio_future', 'launch.event_handlers.on_shutdown:OnShutdown.handle'],
      assumes=('create_task starts the coroutine later; handlers are asked about each event (C04)',
               'the arguments are only handed on: up to two, in any kind of iterable, stand for any number'))
def coroutine():
    quiet()
    ctx = Ctx()
    calls = []

    async def f(*a, **k):
        calls.append((a, k))
    d, want, kw = arguments()
    ignore = choose(3)
    if ignore:
        d['ignore_context'] = ignore == 2
    a = new(OpaqueCoroutine, coroutine=f, **d)
    loop = ctx.asyncio_loop
    prove('nothing is pending beforehand', do(a.get_asyncio_future) is None and not loop.tasks and not ctx.handlers)
    n = 1 + choose(2)
    for i in range(n):
        r = do(a.execute, ctx)
        prove('nothing else to visit', r is None)
        prove('one task for each execution', len(loop.tasks) == i + 1)
        prove('its end is waited for', do(a.get_asyncio_future) is loop.tasks[i])
        prove('it is not canceled', loop.tasks[i].canceled == 0)
    for t in loop.tasks:
        run_coro(t.coro)
    prove('the coroutine is run once for each execution', len(calls) == n)
    for c in calls:
        got_exactly(c, None if ignore == 2 else ctx, want, kw)
    from launch import Event
    for event in (new(Event), new(Shutdown)):
        for h in ctx.handlers:
            if E().branch(lift(do(h.matches, event))):
                class C(Fake):
                    is_shutdown = isinstance(event, Shutdown)

                    def extend_locals(self, d):
                        pass
                r = do(h.handle, event, C())
                prove('shutting down yields nothing', r is None or len(list(r)) == 0)
        if isinstance(event, Shutdown):
            prove('shutting down cancels every execution', all(t.canceled for t in loop.tasks))
        else:
            prove('nothing else cancels it', not any(t.canceled for t in loop.tasks))


@unit('C34', ['launch_testing.actions.test:Test.__init__', 'launch_testing.actions.test:Test.execute', 'launch_testing.actions.test:Test.timeout',
              'launch_testing.actions.test:Test.__on_process_exit', 'launch_testing.actions.gtest:GTest.__init__',
              'launch_testing.actions.pytest:PyTest.__init__'],
      assumes=('ExecuteProcess.execute starts the process and returns nothing to visit (C18)', 'TimerAction: its actions are visited after its period unless '
               'canceled (C20)', '_shutdown_process ends the process (C17)'))
def test_action():
    quiet()
    ctx = Ctx()
    timers, started, ended = [], [], []

    class Timer(Fake):
        def __init__(self, *, period, actions):
            self.period, self.actions, self.canceled = period, list(actions), 0
            timers.append(self)

        def cancel(self):
            self.canceled += 1
    patch(TM, 'TimerAction', Timer)
    use_contract(launch.actions.ExecuteProcess.execute, lambda s, c: started.append((s, c)))
    use_contract(launch.actions.ExecuteLocal._shutdown_process, lambda s, c, *, send_sigint: ended.append((s, c, send_sigint)))
    kind = choose(3)
    path = 'some path'
    timeout = [None, 2.5, [launch.substitutions.TextSubstitution(text='3')]][choose(3)]
    k = {} if timeout is None and choose(2) else dict(timeout=timeout)
    mk = lambda: new(Test, cmd=['x'], **k) if kind == 0 else new((None, GTest, PyTest)[kind], path=path, **k)      # noqa: E731
    (r, a), (r2, other) = outcome(mk), outcome(mk)
    prove('constructed', r == r2 == 'ok', repr(a))
    prove('the path', kind == 0 or a.path is path)
    prove('the timeout', a.timeout is timeout)
    text = ['|'.join(s.text for s in x) for x in a.cmd]
    prove('the command', text == [['x'], [path], [sys.executable, '-m', 'pytest', path]][kind])
    r = do(a.execute, ctx)
    prove('the process is executed once', len(started) == 1 and started[0][0] is a and started[0][1] is ctx)
    if timeout is None:
        prove('no timeout: nothing else', not timers and not r)
        return
    prove('one timer, visited now', len(timers) == 1 and r is not None and [x for x in rt.to_vlist(r).items] == timers)
    t = timers[0]
    prove('of the given period', t.period is timeout and t.canceled == 0)
    d = dict(name='p', cmd=['p'], cwd=None, env=None, pid=1)
    for event, mine in ((new(ProcessStarted, action=a, **d), False), (new(ProcessExited, action=other, returncode=0, **d), False),
                        (new(ProcessExited, action=a, returncode=choose(2), **d), True)):
        for h in ctx.handlers:
            if E().branch(lift(do(h.matches, event))):
                class C(Fake):
                    def extend_locals(self, d):
                        pass
                r = do(h.handle, event, C())
                prove('nothing else to visit', r is None or len(list(r)) == 0)
        prove('the timer is canceled when the process has exited, not before', bool(t.canceled) == mine)
    prove('the process is not ended before the timeout', not ended)
    for x in t.actions:
        do(x.execute, ctx)
    prove('the process is shut down at the timeout', len(ended) == 1 and ended[0][0] is a and ended[0][1] is ctx and ended[0][2] is True)


@unit('C34', [A + 'opaque_function:OpaqueFunction.__init__', A + 'opaque_coroutine:OpaqueCoroutine.__init__'],
      assumes=('one value of each wrong type stands for all',))
def wrong_types():
    quiet()

    async def co(context):
        pass

    def fn(context):
        pass
    bad = [dict(args=3), dict(kwargs=[('a', 1)]), dict(args=3.5, kwargs={}), dict(args=[], kwargs='x')][choose(4)]
    k, r = [outcome(new, OpaqueFunction, function=fn, **bad), outcome(new, OpaqueFunction, function='fn'), outcome(new, OpaqueFunction, function=None),
            outcome(new, OpaqueCoroutine, coroutine=co, **bad), outcome(new, OpaqueCoroutine, coroutine=fn),
            outcome(new, OpaqueCoroutine, coroutine=co, ignore_context='x')][choose(6)]
    prove('wrong types are rejected when constructed', k == 'raise' and isinstance(r, TypeError), repr(r))
