import asyncio
import itertools
import random
import threading

from launch import Event, EventHandler, LaunchContext
from launch.actions import EmitEvent, GroupAction, OpaqueCoroutine, OpaqueFunction, RegisterEventHandler, TimerAction
from .common import *

RULE = ('random sequences of emissions (by the context, synchronously or not, the service, actions, handlers, coroutines and threads) before, '
        'between and during one to three runs, runs ended by idleness, a request, an error or cancellation, same or other loop; each event '
        'processed once, no event before one emitted earlier; non-trivial: distinct scripts')


class Ev(Event):
    def __init__(self, number, then=()):
        self.number, self.then = number, then


class World:
    def __init__(self):
        self.clock, self.ids = itertools.count(), itertools.count()
        self.started, self.ended, self.processed, self.threads = {}, {}, [], []
        self.in_run, self.outside, self.errors = False, [], []

    def event(self, then):
        return Ev(next(self.ids), then)

    def emitting(self, e):
        self.started[e.number] = next(self.clock)

    def emitted(self, e):
        self.ended[e.number] = next(self.clock)


def emit(w, ls, how, then):
    """Emit one event in the given way from the thread of the loop, outside of coroutines."""
    e = w.event(then)
    w.emitting(e)
    if how == 'sync':
        ls.context.emit_event_sync(e)
    elif how == 'service':
        ls.emit_event(e)
    elif how == 'async':
        co = ls.context.emit_event(e)
        try:
            co.send(None)
            raise Failed('emitting waits')
        except StopIteration:
            pass
    elif how == 'thread':
        t = threading.Thread(target=ls.emit_event, args=(e,))
        t.start()
        t.join(5)
        eq(t.is_alive(), False, 'emission from another thread ends')
    w.emitted(e)


def entities(w, ls, steps):
    out = []
    for s in steps:
        k = s[0]
        if k in ('sync', 'service', 'async'):
            out.append(OpaqueFunction(function=lambda c, s=s: emit(w, ls, s[0], s[1])))
        elif k == 'action':
            e = w.event(s[1])

            class A(EmitEvent):
                def execute(self, c):
                    w.emitting(self.event)
                    super().execute(c)
                    w.emitted(self.event)
            out.append(A(event=e))
        elif k == 'coroutine':
            async def co(c, s=s):
                for how, then in s[1]:
                    e = w.event(then)
                    w.emitting(e)
                    if how == 'sync':
                        c.emit_event_sync(e)
                    else:
                        await c.emit_event(e)
                    w.emitted(e)
                    await asyncio.sleep(0)
            out.append(OpaqueCoroutine(coroutine=co))
        elif k == 'threads':
            def start(c, s=s):
                done = c.asyncio_loop.create_future()
                left = [len(s[1])]
                loop = c.asyncio_loop

                def one_less():
                    left[0] -= 1
                    if left[0] == 0 and not done.done():
                        done.set_result(None)

                def work(hows):
                    try:
                        for then in hows:
                            e = w.event(then)
                            w.emitting(e)
                            ls.emit_event(e)
                            w.emitted(e)
                    except BaseException as ex:
                        w.errors.append(ex)
                    finally:
                        loop.call_soon_threadsafe(one_less)
                c.add_completion_future(done)
                for hows in s[1]:
                    t = threading.Thread(target=work, args=(hows,), daemon=True)
                    w.threads.append(t)
                    t.start()
            out.append(OpaqueFunction(function=start))
        elif k == 'timer':
            out.append(TimerAction(period=s[1] / 1000, actions=entities(w, ls, s[2]), cancel_on_shutdown=False))
        elif k == 'fail':
            def fail(c):
                raise RuntimeError('fails')
            out.append(OpaqueFunction(function=fail))
        elif k == 'ask':
            out.append(OpaqueFunction(function=lambda c: ls.shutdown(force_sync=True)))
        else:
            raise KeyError(k)
    return out


def gen(r, depth):
    sub = lambda n=2: tuple(gen(r, depth - 1) for _ in range(r.randint(0, n))) if depth > 0 else ()   # noqa: E731
    k = r.choice(['sync', 'service', 'async', 'action', 'action', 'coroutine', 'threads'] + (['timer'] if depth else []) + ['ask'] * (r.random() < .2)
                 + ['fail'] * (r.random() < .2))
    if k in ('sync', 'service', 'async', 'action'):
        return k, sub()
    if k == 'coroutine':
        return k, tuple((r.choice(('sync', 'async')), sub(1)) for _ in range(r.randint(1, 3)))
    if k == 'threads':
        return k, tuple(tuple(sub(1) for _ in range(r.randint(1, 3))) for _ in range(r.randint(1, 2)))
    if k == 'timer':
        return k, r.choice((0, 1, 3)), sub()
    return (k,)


def check(w, queued):
    for t in w.threads:
        t.join(5)
    eq(w.errors, [], 'errors while emitting')
    eq(w.outside, [], 'events processed outside of a run')
    done = [e.number for e in w.processed]
    left = [e.number for e in queued]
    eq(len(set(done)), len(done), 'processed once: %r' % done)
    order = done + left
    eq(sorted(order), sorted(w.ended), 'emitted events are processed or queued')
    pos = {n: i for i, n in enumerate(order)}
    for a in w.ended:
        for b in w.started:
            if b in pos and w.ended[a] < w.started[b] and pos[a] > pos[b]:
                raise Failed('event %d was emitted before %d but processed after it' % (a, b))


def drain(q):
    out = []
    while not q.empty():
        out.append(q.get_nowait())
    for e in out:
        q.put_nowait(e)
    return [e for e in out if isinstance(e, Ev)]


def run(h):
    r = h.rng

    def one(script, same_loop=True):
        def f():
            ls = LaunchService(noninteractive=True)
            w = World()
            loops = [asyncio.new_event_loop()]
            asyncio.set_event_loop(loops[0])

            def on(event, context):
                w.processed.append(event)
                if not w.in_run:
                    w.outside.append(event)
                return entities(w, ls, event.then)
            class H(EventHandler):
                def handle(self, event, context):
                    super().handle(event, context)
                    return on(event, context)
            ls.context.register_event_handler(H(matcher=lambda e: isinstance(e, Ev)))
            try:
                for before, end in script:
                    if not same_loop:
                        loops.append(asyncio.new_event_loop())
                        loops[-2].close()
                        asyncio.set_event_loop(loops[-1])
                    loop = loops[-1]
                    for step in before:
                        if step[0] == 'include':
                            ls.include_launch_description(LaunchDescription(entities(w, ls, step[1])))
                        else:
                            emit(w, ls, *step)

                    async def go():
                        w.in_run = True
                        if end == 'cancel':
                            t = asyncio.ensure_future(ls.run_async(shutdown_when_idle=False))
                            await asyncio.sleep(.03)
                            t.cancel()
                        elif end == 'request':
                            t = asyncio.ensure_future(ls.run_async(shutdown_when_idle=False))
                            await asyncio.sleep(.02)
                            ret = ls.shutdown()
                            if ret is not None:
                                await ret
                        else:
                            t = asyncio.ensure_future(ls.run_async())
                        try:
                            return await t
                        finally:
                            w.in_run = False
                    if end == 'blocking':
                        w.in_run = True
                        ls.run()
                        w.in_run = False
                    else:
                        loop.run_until_complete(go())
                    if end != 'cancel':
                        check(w, drain(ls.context._event_queue))
                        eq(ls.context._event_queue.empty(), True, 'all events are processed before a run ends')
                check(w, drain(ls.context._event_queue))
            finally:
                for lp in loops:
                    lp.close()
                asyncio.set_event_loop(None)
        h.case('script', (script, same_loop), f, timeout=15)

    ways = ['sync', 'async', 'service', 'thread']
    for a in ways:
        for b in ways:
            one([(((a, ()), (b, ()), (a, ())), 'idle')])
            one([((('include', ()), (a, ((b if b != 'thread' else 'action', ()), ('action', ()))), (b, ())), 'idle')])
    for end in ('idle', 'cancel', 'request', 'blocking'):
        for a in ways:
            for same in (True, False):
                one([(((a, ()),), end), (((a, ()), ('sync', ()), (a, ())), 'idle')], same)
                one([((), end), (((a, ()),), 'cancel'), (((a, ()), ('sync', ()), (a, (('action', ()), ('sync', ())))), 'idle')], same)
    one([((('include', (('timer', 2, (('action', ()), ('sync', ()), ('async', ()))),)), ('sync', ())), 'idle')])
    one([((('include', (('threads', (((), ()), ((), ()))),)), ('sync', (('fail',), ('sync', ()))), ('sync', ())), 'idle')])
    one([(tuple(('sync', (('action', ()), ('service', ()))) for _ in range(40)), 'idle')])
    for _ in range(h.n(120)):
        script = []
        for _ in range(r.choice((1, 1, 2, 3))):
            before = tuple(('include', tuple(gen(r, 2) for _ in range(r.randint(0, 3)))) if r.random() < .4 else
                           (r.choice(ways), tuple(gen(r, 1) for _ in range(r.randint(0, 2)))) for _ in range(r.randint(0, 4)))
            # threads that are still emitting when a run is cancelled wait for a loop that no longer runs
            safe = 'threads' not in repr(before) and 'coroutine' not in repr(before) and 'timer' not in repr(before)
            script.append((before, r.choice(('idle', 'blocking') + (('cancel', 'request') if safe else ()))))
        one(script, r.random() < .6)
