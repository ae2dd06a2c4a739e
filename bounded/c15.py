import asyncio
import os
import random
import signal
import threading

from launch import Event, EventHandler
from launch.actions import (EmitEvent, GroupAction, LogInfo, OpaqueCoroutine, OpaqueFunction, RegisterEventHandler,
                            Shutdown, TimerAction)
from launch.event_handlers import OnShutdown
from .common import *

RULE = ('runs over random trees of actions: work that ends late, at once or with an error, timers, events and handlers that raise, shutdown '
        'requested from handlers, coroutines, threads, signals or never; several runs of one service; return code, announcements and unfinished '
        'work checked; non-trivial: distinct trees')


class Boom(Exception):
    pass


class Ev(Event):
    pass


class World:
    def __init__(self):
        self.errors = self.asked = self.emitted = self.handled = self.started = self.ended = self.explicit = 0
        self.active = self.active_at_end = 0
        self.shutdowns, self.threads, self.futures = [], [], []


def build(w, ls, spec):
    kind = spec[0]
    if kind == 'log':
        return LogInfo(msg='x')
    if kind == 'group':
        return GroupAction([build(w, ls, s) for s in spec[1]])
    if kind == 'timer':
        return TimerAction(period=spec[1] / 1000, actions=[build(w, ls, s) for s in spec[2]])
    if kind == 'raise':
        def f(c):
            w.errors += 1
            raise Boom('function')
        return OpaqueFunction(function=f)
    if kind == 'more':
        return OpaqueFunction(function=lambda c: [build(w, ls, s) for s in spec[1]])
    if kind == 'callback':       # an error in a callback of the loop, while work is pending
        async def co(c):
            def cb():
                w.errors += 1
                raise Boom('callback')
            c.asyncio_loop.call_soon(cb)
            w.active += 1
            try:
                await asyncio.sleep(.004)
            finally:
                w.active -= 1
        return OpaqueCoroutine(coroutine=co)
    if kind == 'coro':
        async def co(c):
            w.active += 1
            try:
                for _ in range(spec[1]):
                    await asyncio.sleep(0 if spec[3] else .001)
                if spec[2]:
                    w.errors += 1
                    raise Boom('coroutine')
            finally:
                w.active -= 1
        return OpaqueCoroutine(coroutine=co)
    if kind == 'future':         # work that knows nothing of shutdown
        class A(launch.Action):
            def execute(self, c):
                self.f = c.asyncio_loop.create_future()
                w.futures.append(self.f)
                how = spec[2]
                c.asyncio_loop.call_later(spec[1] / 1000, lambda: {
                    'ok': lambda: self.f.set_result(1), 'cancel': self.f.cancel, 'fail': fail}[how]())

                def fail():
                    w.errors += 1
                    self.f.set_exception(Boom('future'))

            def get_asyncio_future(self):
                return self.f
        return A()
    if kind == 'completion':     # work known only by its completion
        def f(c):
            fu = c.asyncio_loop.create_future()
            w.futures.append(fu)
            if spec[1] == 0:
                fu.set_result(1)
            else:
                c.asyncio_loop.call_later(spec[1] / 1000, fu.set_result, 1)
            c.add_completion_future(fu)
        return OpaqueFunction(function=f)
    if kind == 'emit':
        ev = Ev()

        def on(c):
            w.handled += 1
            if spec[1] == 'raise':
                w.errors += 1
                raise Boom('handler')
            return [build(w, ls, s) for s in spec[2]]

        class E(EmitEvent):
            def execute(self, c):
                w.emitted += 1
                return super().execute(c)
        return GroupAction([RegisterEventHandler(EventHandler(matcher=lambda e: e is ev, entities=OpaqueFunction(function=on))), E(event=ev)],
                           scoped=False)
    if kind == 'ask':
        async def co(c):
            if spec[1]:
                await asyncio.sleep(spec[1] / 1000)
            for _ in range(spec[2]):
                w.asked += 1
                r = ls.shutdown()
                if r is not None:
                    await r
        return OpaqueCoroutine(coroutine=co)
    if kind == 'ask now':
        def f(c):
            w.asked += 1
            eq(ls.shutdown(force_sync=True), None, 'a forced request is done at once')
        return OpaqueFunction(function=f)
    if kind == 'thread':
        def f(c):
            def go():
                import time
                time.sleep(spec[1] / 1000)
                ls.shutdown()
            w.asked += 1
            t = threading.Thread(target=go, daemon=True)
            w.threads.append(t)
            t.start()
        return OpaqueFunction(function=f)
    if kind == 'action':
        class S(Shutdown):
            def execute(self, c):
                w.explicit += 1
                return super().execute(c)
        return S(reason='x')
    if kind == 'signal':
        def f(c):
            w.asked += 1
            for i in range(spec[1]):
                c.asyncio_loop.call_later(.003 * (i + 1), os.kill, os.getpid(), signal.SIGINT)
        async def co(c):
            try:
                await asyncio.sleep(.02)
            except asyncio.CancelledError:
                pass
        class Wait(launch.Action):
            def execute(self, c):
                f(c)
                self.f = c.asyncio_loop.create_future()
                c.asyncio_loop.call_later(.003 * spec[1] + .02, self.f.set_result, 1)

            def get_asyncio_future(self):
                return self.f
        return Wait()
    raise KeyError(kind)


def gen(r, depth, calm):
    kinds = ['log', 'coro', 'coro', 'future', 'completion', 'emit', 'emit'] + (['timer', 'group', 'more', 'emit'] if depth else [])
    if not calm:
        kinds += ['raise', 'callback', 'coro', 'future', 'emit', 'ask', 'ask now', 'thread', 'action']
    k = r.choice(kinds)
    sub = lambda: tuple(gen(r, depth - 1, calm) for _ in range(r.randint(0, 2))) if depth else ()   # noqa: E731
    if k in ('group', 'more'):
        return k, sub()
    if k == 'timer':
        return k, r.choice((0, 2, 5)), sub()
    if k == 'coro':
        return k, r.randint(0, 3), not calm and r.random() < .4, r.random() < .5
    if k == 'completion':
        return k, r.choice((0, 1, 4))
    if k == 'future':
        return k, r.choice((0, 1, 4)), r.choice(['ok'] if calm else ['ok', 'cancel', 'fail', 'cancel'])
    if k == 'emit':
        return k, 'raise' if not calm and r.random() < .2 else '', sub()
    if k == 'ask':
        return k, r.choice((0, 0, 3)), r.randint(1, 3)
    if k == 'thread':
        return k, r.choice((0, 1, 3))
    return (k,)


def run(h):
    r = h.rng

    def one(runs, when_idle=True, cancel=None):
        signals = "'signal'" in repr(runs)

        def f():
            r2 = random.Random(repr(runs))
            ls = LaunchService(noninteractive=True)
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            loop.set_debug(False)
            try:
                for specs in runs:
                    w = World()
                    eq(ls.shutdown(), None, 'a request outside a run')
                    eq(ls.event_loop, None, 'no loop in use')
                    eq(ls.context._event_queue.empty(), True, 'a request outside a run is not announced')

                    def watch(c):
                        w.shutdowns.append(c.locals.event)
                    hd = OnShutdown(on_shutdown=lambda e, c: w.shutdowns.append(e))
                    ls.context.register_event_handler(hd)
                    ls.include_launch_description(LaunchDescription([build(w, ls, s) for s in specs]))

                    async def go():
                        t = asyncio.ensure_future(ls.run_async(shutdown_when_idle=when_idle))
                        if cancel is not None:
                            loop.call_later(cancel / 1000, t.cancel)
                        rc = await t
                        w.active_at_end = w.active
                        return rc
                    loop.set_exception_handler(None)
                    if cancel is None and (signals or r2.random() < .3):
                        rc = ls.run(shutdown_when_idle=when_idle)     # takes care of interrupts
                        w.active_at_end = w.active
                    else:
                        rc = loop.run_until_complete(go())
                    ls.context.unregister_event_handler(hd)
                    for t in w.threads:
                        t.join(5)
                    if cancel is not None:
                        eq(rc != 0, True, 'return code of a cancelled run')
                        continue
                    eq(w.active_at_end, 0, 'coroutines still running at the end')
                    eq([x for x in w.futures if not x.done()], [], 'work unfinished at the end')
                    eq(w.handled, w.emitted, 'events handled before the end')
                    eq(ls.context._event_queue.empty(), True, 'no event left')
                    eq(rc != 0, w.errors > 0, 'return code %r after %d errors' % (rc, w.errors))
                    n = len(w.shutdowns)
                    if w.explicit == 0:
                        eq(n, 1, 'announcements of shutdown')
                    else:
                        eq(w.explicit <= n <= w.explicit + 1, True, 'announcements %d of %d actions and requests' % (n, w.explicit))
                    eq(ls.event_loop, None, 'no loop in use after the run')
            finally:
                loop.close()
                asyncio.set_event_loop(None)
        h.case('run', (runs, when_idle, cancel), f, timeout=10)

    for spec in [('coro', 0, True, True), ('coro', 2, True, False), ('coro', 3, False, False), ('future', 0, 'fail'), ('future', 4, 'fail'),
                 ('future', 4, 'cancel'), ('raise',), ('callback',), ('emit', 'raise', ()), ('ask', 0, 2), ('ask', 3, 3), ('ask now',),
                 ('thread', 1), ('action',), ('log',), ('completion', 3), ('completion', 0), ('timer', 2, (('raise',),)), ('more', (('future', 2, 'ok'),)), ('timer', 5, ())]:
        one([(spec,)])
        one([(spec,), (('log',),)])
        one([(spec,), (spec,)])
        one([(('future', 5, 'ok'), spec)])
        one([(spec, ('future', 5, 'ok'))])
        one([(('emit', '', (spec,)), ('coro', 2, False, False))])
    for n in (1, 2, 3):
        one([(('signal', n),)])
        one([(('coro', 3, False, False), ('signal', n)), (('log',),)])
    for spec in [('ask', 3, 1), ('ask', 0, 2), ('thread', 3), ('ask now',), ('action',), ('group', (('completion', 6), ('ask', 2, 1)))]:
        one([(spec,)], when_idle=False)
        one([(('coro', 2, False, False), ('timer', 4, (spec,)))], when_idle=False)
        one([(spec, ('coro', 2, True, False))], when_idle=False)
        one([(spec,), (spec,)], when_idle=False)
    one([(('future', 50, 'ok'),)], cancel=5)
    one([(('log',),)], when_idle=False, cancel=5)
    one([(('future', 50, 'ok'),), (('log',), ('future', 50, 'ok'))], cancel=5)
    for _ in range(h.n(150)):
        calm = r.random() < .3
        one([tuple(gen(r, 2, calm) for _ in range(r.randint(0, 4))) for _ in range(r.choice((1, 1, 2)))])

    def waits():
        """Without shutdown-when-idle an idle run goes on until shutdown is requested."""
        ls = LaunchService(noninteractive=True)
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            async def go():
                t = asyncio.ensure_future(ls.run_async(shutdown_when_idle=False))
                await asyncio.sleep(.05)
                eq(t.done(), False, 'an idle run goes on')
                ex = None
                try:
                    await ls.run_async()
                except RuntimeError as e:
                    ex = e
                eq(ex is not None, True, 'a concurrent run is refused')
                eq(ls.event_loop is loop, True, 'the run in progress is not disturbed')
                got = []
                ls.context.register_event_handler(OnShutdown(on_shutdown=lambda e, c: got.append(e)))
                for _ in range(3):
                    q = ls.shutdown()
                    if q is not None:
                        await q
                rc = await asyncio.wait_for(t, 5)
                eq((rc, len(got)), (0, 1), 'return code and announcements')
            loop.run_until_complete(go())
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    for i in range(3):
        h.case('idle', i, waits)

    def blocking():
        ls = LaunchService(noninteractive=True)
        w = World()
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            ls.include_launch_description(LaunchDescription([build(w, ls, ('coro', 2, False, False))]))
            eq(ls.run(), 0, 'return code of run()')
            ls.include_launch_description(LaunchDescription([build(w, ls, ('coro', 2, True, False))]))
            eq(ls.run() != 0, True, 'return code of run() after an error')
            ls.include_launch_description(LaunchDescription([build(w, ls, ('signal', 2))]))
            eq(ls.run(), 0, 'return code of an interrupted run()')
        finally:
            loop.close()
            asyncio.set_event_loop(None)
    h.case('blocking', 0, blocking)
