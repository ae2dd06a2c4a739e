import asyncio
import random

from launch import Event, EventHandler
from launch.actions import GroupAction, OpaqueFunction, PushLaunchConfigurations, SetLaunchConfiguration, TimerAction
from launch.substitutions import LaunchConfiguration, TextSubstitution
from .common import *

RULE = ('runs in virtual time over random scripts: timers (nested, executed again while waiting, period and cancel_on_shutdown given as values or '
        'substitutions), cancelled never, before, during or after the wait, several times, and shutdown; moments of firing, locals and the end '
        'of the run compared with the script; non-trivial: distinct scripts')


class Ev(Event):
    def __init__(self, who, timer):
        self.who, self.timer = who, timer


def run(h):
    r = h.rng

    def per(t, who):
        return t[0][who % len(t[0])] if isinstance(t[0], tuple) else t[0]

    def one(script):
        timers, starts, cancels, shutdown = script
        # a start of a timer executed twice is two executions by the same event
        both = [(at, i, n, k) for n, (at, i) in enumerate(starts) for k in range(2 if timers[i][1] == 'twice' else 1)]

        sigint = shutdown is not None and shutdown % 3 == 0

        def f():
            ls = LaunchService(noninteractive=True)
            loop = VirtualLoop()
            asyncio.set_event_loop(loop)
            log, futures = [], []
            ts = []
            down = []

            class T(TimerAction):
                def execute(self, context):
                    r_ = super().execute(context)
                    futures.append(self.get_asyncio_future())
                    return r_

            def action(i):
                def fn(context):
                    log.append((round(loop.time() * 1000), i, getattr(context.locals, 'who', None)))
                return fn
            for i, (period, mode, cos, inner, as_iter) in enumerate(timers):
                acts = [OpaqueFunction(function=action(i))] + ([] if inner is None else [ts[inner]])
                p = (period if not isinstance(period, tuple) else period[0]) / 1000
                if mode == 'subst':
                    p = [TextSubstitution(text=str(p))]
                if mode in ('scoped', 'twice'):
                    p = LaunchConfiguration('p')
                c = cos
                if mode == 'subst':
                    c = TextSubstitution(text=str(cos).lower())
                ts.append(T(period=p, actions=iter(acts) if as_iter else acts, cancel_on_shutdown=c))

            class H(EventHandler):
                def handle(self, event, context):
                    super().handle(event, context)
                    context.extend_locals({'who': event.who})
                    mode, period = timers[event.timer][1], per(timers[event.timer], event.who)
                    if mode == 'twice':
                        # twice in the same iteration of the loop, with another period each
                        return [GroupAction([SetLaunchConfiguration('p', str(x / 1000)), ts[event.timer]]) for x in timers[event.timer][0][:2]]
                    if mode == 'scoped':
                        return [GroupAction([SetLaunchConfiguration('p', str(period / 1000)), ts[event.timer]])]
                    return [ts[event.timer]]
            ls.context.register_event_handler(H(matcher=lambda e: isinstance(e, Ev)))

            def stop():
                down.append(1)
                if sigint:
                    ls._shutdown(reason='ctrl-c', due_to_sigint=True, force_sync=True)
                else:
                    ls.shutdown(force_sync=True)

            async def go():
                t0 = loop.time()
                for n, (at, i) in enumerate(starts):
                    e = Ev(n, i)
                    if at == 0:
                        ls.context.emit_event_sync(e)
                    else:
                        loop.call_later(at / 1000, ls.context.emit_event_sync, e)
                for at, i, times in cancels:
                    for _ in range(times):
                        if at == 0:
                            eq(ts[i].cancel(), None, 'cancel')
                        else:
                            loop.call_later(at / 1000, ts[i].cancel)
                hold = loop.create_future()
                last = [at for at, _ in starts] + [at for at, _, _ in cancels] + [shutdown or 0]
                loop.call_later((max(last) + 1) / 1000, hold.set_result, None)
                ls.context.add_completion_future(hold)
                if shutdown is not None:
                    loop.call_later(shutdown / 1000, stop)
                rc = await asyncio.wait_for(ls.run_async(), 100)
                return rc, round((loop.time() - t0) * 1000)
            try:
                rc, end = loop.run_until_complete(go())
            finally:
                loop.close()
                asyncio.set_event_loop(None)
            eq(rc, 0, 'return code')
            # what should have happened
            expect, alive = [], [at for at, _ in starts] + [at for at, _, _ in cancels] + [shutdown or 0]
            stop_at = max(alive) + 1
            todo = sorted(both, key=lambda x: x[0])
            executions = 0
            ends = [stop_at]
            while todo:
                todo.sort(key=lambda x: x[0])
                at, i, who, k = todo.pop(0)
                executions += 1
                _, mode, cos, inner, _ = timers[i]
                period = per(timers[i], k if mode == 'twice' else who)
                cs = [c for c, j, _ in cancels if j == i]
                if any(c < at or c == 0 for c in cs):
                    continue
                until = at + period
                stops = [c for c in cs if c < until] + ([shutdown] if shutdown is not None and cos and at < shutdown < until else [])
                if stops:
                    ends.append(min(stops))
                    # shutdown cancels this timer for good
                    continue
                if shutdown is not None and cos and any(a < shutdown for a, j, _ in known(starts, i)) and shutdown < until and shutdown < at:
                    continue
                ends.append(until)
                expect.append((until, i, who))
                if inner is not None:
                    todo.append((until, inner, who, 0))
            got = sorted(log)
            eq(got, sorted(expect), 'actions run (time, timer, locals)')
            eq(len(futures), executions, 'executions')
            eq([x.done() for x in futures], [True] * len(futures), 'completions')
            eq(max(ends) <= end <= max(ends) + 1, True, 'the run ends at %d, expected %d' % (end, max(ends)))
        h.case('timers', script, f, timeout=20)

    def again(first, second):
        # one timer in two runs, each in a loop of its own: (cancelled at, shut down at) of the second
        def f():
            log = []
            keep = OpaqueFunction(function=lambda context: log.append(round(asyncio.get_event_loop().time() * 1000)))
            # the shutdown that ends a run cancels a timer for good, unless it is told not to
            t = TimerAction(period=.03, actions=iter([keep]), cancel_on_shutdown=False)
            ends = []
            for cancel, down in (first, second):
                loop = VirtualLoop()
                asyncio.set_event_loop(loop)
                try:
                    ls = LaunchService(noninteractive=True)
                    ls.context.emit_event_sync(Ev(0, 0))

                    class H(EventHandler):
                        def handle(self, event, context):
                            super().handle(event, context)
                            return [t]
                    ls.context.register_event_handler(H(matcher=lambda e: isinstance(e, Ev)))
                    base = loop.time()
                    if cancel is not None:
                        loop.call_later(cancel / 1000, t.cancel)
                    if down is not None:
                        loop.call_later(down / 1000, lambda: ls.shutdown(force_sync=True))
                    log.append('run')
                    rc = loop.run_until_complete(asyncio.wait_for(ls.run_async(), 50))
                    eq(rc, 0, 'return code')
                    ends.append(round((loop.time() - base) * 1000))
                finally:
                    loop.close()
                    asyncio.set_event_loop(None)
                eq(list(t.actions), [keep], 'the actions of the timer')
            stops = [min([x for x in run[:1] if x is not None] + [30]) for run in (first, second)]
            eq([len([0 for x in part.split(',') if x]) for part in ','.join(map(str, log)).split('run')[1:]],
               [1 if s == 30 else 0 for s in stops], 'actions run in each run')
            for e, s in zip(ends, stops):
                eq(s <= e <= s + 2, True, 'the run ends at %d, expected %d' % (e, s))
        h.case('again', (first, second), f, timeout=20)
    for second in ((None, None), (11, None), (None, 11), (29, 11), (11, 29)):
        again((None, None), second)

    def known(starts, i):
        return [(a, j, n) for n, (a, j) in enumerate(starts) if j == i]

    base = (30, 'float', True, None, False)
    one(([base], [(0, 0)], [], None))
    one(([base], [(0, 0), (0, 0), (7, 0), (35, 0)], [], None))
    for c in (0, 1, 29, 31, 50):
        for k in (1, 3):
            one(([base], [(0, 0)], [(c, 0, k)], None))
            one(([base], [(0, 0), (11, 0)], [(c, 0, k), (c, 0, 1)], None))
    for s in (1, 29, 31):
        for cos in (True, False):
            one(([(30, 'float', cos, None, False)], [(0, 0)], [], s))
            one(([(30, 'subst', cos, None, True)], [(0, 0), (5, 0)], [], s))
    for mode in ('float', 'subst', 'scoped'):
        for it in (True, False):
            one(([(30, mode, True, None, it)], [(0, 0), (3, 0), (41, 0)], [], None))
            one(([(30, mode, True, None, it), (20, 'float', True, 0 if mode != 'scoped' else None, it)], [(0, 1), (3, 1)], [(25, 0, 1)], None))
    one(([(0, 'float', True, None, False)], [(0, 0), (2, 0)], [], None))
    # executions of one timer that end in another order
    for c in (5, 25, 45):
        for k in (1, 2):
            one(([((40, 20), 'scoped', True, None, False)], [(0, 0), (0, 0)], [(c, 0, k)], None))
            one(([((20, 40, 30), 'scoped', True, None, False)], [(0, 0), (2, 0), (4, 0)], [(c, 0, k)], None))
    for c in (5, 25, 45):
        one(([((40, 20), 'twice', True, None, False)], [(0, 0)], [(c, 0, 1)], None))
        one(([((20, 40), 'twice', True, None, False)], [(0, 0), (70, 0)], [], None))
    for s in (5, 25, 45):
        for cos in (True, False):
            one(([((40, 20), 'scoped', cos, None, False)], [(0, 0), (0, 0)], [], s))
    one(([(0, 'float', True, None, False)], [(0, 0)], [(0, 0, 1)], None))
    for _ in range(h.n(250)):
        n = r.randint(1, 3)
        timers = []
        for i in range(n):
            mode = r.choice(('float', 'float', 'subst', 'scoped'))
            inner = r.choice([None] + [j for j in range(i) if timers[j][1] != 'scoped'])
            # moments never coincide: periods are multiples of 10, the rest is odd
            timers.append((tuple(10 * r.randint(1, 6) for _ in range(3)) if mode == 'scoped' else 10 * r.randint(1, 6), mode, r.random() < .5, inner, r.random() < .3))
        odd = r.sample(range(1, 100, 2), 12)
        odd = [x for x in odd if x % 10 != 0]
        starts = tuple((r.choice((0, 20, 50)), r.randrange(n)) for _ in range(r.randint(1, 4)))
        cancels = tuple((odd.pop() if r.random() < .85 else 0, r.randrange(n), r.randint(1, 2)) for _ in range(r.choice((0, 0, 1, 2))))
        shutdown = odd.pop() if r.random() < .4 else None
        if shutdown is not None and any(t[2] for t in timers) and max(a for a, _ in starts) > shutdown:
            starts = tuple((0, i) for _, i in starts)
        if shutdown is not None and any(t[3] is not None for t in timers):
            timers = [t[:2] + (False,) + t[3:] for t in timers]
        one((timers, starts, cancels, shutdown))
