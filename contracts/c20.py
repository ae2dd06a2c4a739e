"""C20: timers fire once after their period unless cancelled first, and always complete."""
import asyncio

from .common import *
import launch.actions.timer_action
import launch.events
import launch.utilities.type_utils
from launch import LaunchContext
from launch.actions import OpaqueFunction, TimerAction
from launch.events import TimerEvent
from .c15 import Awaitable

T = 'launch.actions.timer_action:TimerAction.'
M = launch.actions.timer_action
LocalsK = ObjK('locals', SymObj)


class GFuture(Fake):
    """A future as asyncio specifies it: it gets a result at most once."""

    def __init__(self, loop, done=False):
        track(self)
        self.loop = loop
        self.times = 0
        rt.setattr_(self, 'isdone', done)

    def done(self):
        return self.isdone

    def cancelled(self):
        return False

    def set_result(self, v):
        if E().branch(lift(self.isdone)):
            raise asyncio.InvalidStateError('done')
        self.times += 1
        rt.setattr_(self, 'isdone', True)

    def get_loop(self):
        return self.loop


class Loop(Fake):
    def __init__(self):
        self.tasks, self.futures = [], []

    def create_future(self):
        self.futures.append(GFuture(self))
        return self.futures[-1]

    def create_task(self, coro):
        self.tasks.append(coro)
        return Fake()


class Ctx(Fake):
    """A launch context: the handlers registered, the events emitted, the locals."""

    def __init__(self, loop, locals_):
        self.asyncio_loop, self.handlers, self.events, self.locals_, self.extended = loop, [], [], locals_, []

    def __getattr__(self, n):
        if n == '_TimerAction__event_handler_has_been_installed':
            raise AttributeError(n)
        return Fake.__getattr__(self, n)

    def register_event_handler(self, h):
        self.handlers.append(h)

    def get_locals_as_dict(self):
        return self.locals_

    def emit_event(self, e):
        return Awaitable(lambda: self.events.append(e))

    def emit_event_sync(self, e):
        self.events.append(e)

    def extend_locals(self, d):
        self.extended.append(d)


def wait_contract(on_wait):
    def wait(futures, *, timeout=None, return_when=asyncio.ALL_COMPLETED):
        def go():
            fs = list(futures)
            prove('one waits for cancellation only', len(fs) == 1 and isinstance(fs[0], GFuture))
            on_wait(fs[0], timeout)
            return VList([], cls=tuple), VList(fs, cls=tuple)
        return Awaitable(go)
    patch(M, 'asyncio', Facade(asyncio, wait=wait))


def values(period, cancel_on_shutdown):
    """Values of the arguments as decided in C08/C12: evaluated in the context."""
    def perform(context, value, data_type, **k):
        if data_type is float:
            return period() if callable(period) else period
        return cancel_on_shutdown
    use_contract(launch.utilities.type_utils.perform_typed_substitution, perform)
    use_contract(launch.utilities.type_utils.normalize_typed_substitution, lambda v, t: v)


def timer(**k):
    quiet()
    return new(TimerAction, period=1.0, actions=k.pop('actions', []), **k)


def matching(handlers, event):
    return [h for h in handlers if E().branch(lift(do(h.matches, event)))]


@unit('C20', [T + '__init__', T + 'execute', T + 'cancel', T + '_wait_to_fire_event', T + 'handle', T + 'get_asyncio_future', T + 'actions'],
      budget=200,
      assumes=('asyncio.wait returns when its future is done or the timeout has passed', 'create_task runs its coroutine later',
               'perform_typed_substitution evaluates period and cancel_on_shutdown (C08)',
               'LaunchContext: register_event_handler, get_locals_as_dict and extend_locals (C03, C05), emit_event (C16)'))
def life():
    """One or two executions, cancelled at any moment."""
    periods, cos = [fresh_real('period'), fresh_real('period of the second execution')], fresh_bool('cancel on shutdown')
    locs, completed = [], []
    values(lambda: periods[len(locs) - 1], cos)
    down = new(launch.events.Shutdown, reason='', due_to_sigint=fresh_bool('due_to_sigint'))
    loop = Loop()
    ctx = Ctx(loop, None)
    action = Fake()
    t = timer(actions=[action], cancel_on_shutdown=True)
    # cancellation: before, between or during the waits, when one is over, afterwards; any number of times
    moment = ['never', 'before', 'executed', 'waiting', 'over', 'after'][choose(6)]
    how = 'shutdown' if moment in ('executed', 'waiting') and choose(2) else 'cancel'
    cancelled, shut = [], [False]

    def cancel():
        cancelled.append(moment)
        if how == 'shutdown':
            # whoever is registered gets the event
            shut[0] = True
            for h in matching(ctx.handlers, down):
                ents = do(h.handle, down, Handling(ctx))
                for e in ents if isinstance(ents, (list, tuple, VList)) else [ents]:
                    do(e.execute, Handling(ctx))
            return
        for _ in range(1 + choose(2)):
            k, r = outcome(do, t.cancel)
            prove('cancelling never fails', k == 'ok' and r is None, repr(r))
    if moment == 'before':
        cancel()
    n = 1 + choose(2)
    for i in range(n):
        ctx.locals_ = {'who': i}
        locs.append(dict(ctx.locals_))
        k, r = outcome(do, t.execute, ctx)
        prove('a timer can be executed', k == 'ok' and not r, repr(r))
        completed.append(do(t.get_asyncio_future))
        prove('completion can be waited for', completed[-1] is not None)
        ctx.locals_['who'] = 'changed later'
    prove('each execution has its own completion', len({id(x) for x in completed}) == n)
    if moment == 'before':
        prove('a timer cancelled before is complete at once', And([lift(x.done()) for x in completed]))
        prove('a timer cancelled before never fires', not loop.tasks)
        return
    for x in completed:
        prove('a timer is not complete before it is over', Not(lift(x.done())))
    prove('each execution is waited for', len(loop.tasks) == n)
    ts = matching(ctx.handlers, new(TimerEvent, timer_action=t))
    prove('timer events are handled once', len(ts) == 1)
    sh = matching(ctx.handlers, down)
    prove('shutdown concerns the timer exactly if so configured', lift(cos) if sh else Not(lift(cos)))
    if moment == 'executed':
        cancel()
    fired, runs = {}, []

    def on_wait(fut, timeout):
        prove('one waits for the period', lift(timeout == periods[ended[-1]]))
        if not cancelled and moment == 'waiting' and (len(fired) == n - 1 or choose(2)):
            cancel()
        if moment == 'over' and not cancelled:
            # in the same iteration of the loop in which the time is over
            cancel()
    wait_contract(on_wait)
    # the executions may end in any order
    order = list(enumerate(loop.tasks))
    if n == 2 and choose(2):
        order.reverse()
    ended = []
    for i, c in order:
        before = len(ctx.events)
        ended.append(i)

        async def go(c=c):
            await c
        k, r = outcome(run_coro, go())
        prove('waiting does not fail', k == 'ok', repr(r))
        fired[i] = len(ctx.events) - before
        runs.append(i)
        effective = bool(cancelled) and (how == 'cancel' or bool(sh))
        prove('it fires once unless it was cancelled', fired[i] == (0 if effective else 1))
        prove('it completes when it is over', And([lift(x.done()) for j, x in enumerate(completed) if j in ended]))
        prove('others go on', And([Not(lift(x.done())) for j, x in enumerate(completed) if j not in ended]))
    prove('each execution completes once', all(x.times == 1 for x in completed))
    prove('only timer events of this timer', all(isinstance(e, TimerEvent) and e.timer_action is t for e in ctx.events))
    if moment == 'after':
        cancel()
    which = [i for i in runs if fired[i]]
    for i, e in zip(which, list(ctx.events)):
        h = matching(ctx.handlers, e)
        prove('timer events are handled once', len(h) == 1)
        hc = Handling(ctx, e)
        ents = do(h[0].handle, e, hc)
        out = []
        for x in ents if isinstance(ents, (list, tuple, VList)) else [ents]:
            out.extend(do(x.execute, hc) or [])
        prove('its actions run', len(out) == 1 and out[0] is action)
        prove('with the locals captured when it was started', [dict(x) for x in ctx.extended] == [locs[i]], repr(ctx.extended))
        del ctx.extended[:]


class Handling(Fake):
    """The context while an event is handled."""

    def __init__(self, ctx, event=None):
        self.ctx = ctx

        class L(Fake):
            pass
        self.locals = L()
        self.locals.event = event

    def extend_locals(self, d):
        if isinstance(d, dict) and set(d) <= {'event'} or isinstance(d, VDict) and False:
            return
        self.ctx.extend_locals(d)


@unit('C20', [T + '_wait_to_fire_event', T + 'cancel', T + 'handle'],
      assumes=('the state of a timer between two operations is one of those described',))
def any_history():
    """Whatever happened to the timer before: any number of executions, events under way."""
    period = fresh_real('period')
    values(period, True)
    loop = Loop()
    ctx = Ctx(loop, None)
    t = timer()
    was = fresh_bool('cancelled')
    fut, completed = GFuture(loop, was), GFuture(loop, False)
    mine = fresh_obj('locals at execution', LocalsK)
    under_way = fresh_seq('locals of events under way', LocalsK)
    before = under_way.as_term()
    started = bool(choose(2))
    if started:
        t._canceled_future, t._completed_future = fut, completed
    t._TimerAction__timeout = period      # set by execute
    ok = set_private(t, '__canceled', was) and set_private(t, '__context_locals', mine) \
        and set_private(t, '__context_locals_of_events', under_way)
    if not ok:
        raise Unsupported('fields of TimerAction')

    def ev():
        return private(t, '__context_locals_of_events').as_term(LocalsK)
    op = choose(3) if started else 1
    if op:
        # the last execution may be over while others wait
        completed.isdone = fresh_bool('last execution over')
    done_before = lift(completed.isdone)
    if op == 0:
        during = fresh_bool('cancelled while waiting')

        def on_wait(f, timeout):
            prove('cancelling the timer ends the wait', f is fut)
            prove('one waits for the period', lift(timeout == period))
            # other executions, cancellation
            t._completed_future = GFuture(loop)
            set_private(t, '__context_locals', fresh_obj('locals of another execution', LocalsK))
            rt.setattr_(fut, 'isdone', BoolK.wrap(Or(lift(was), lift(during))))
        wait_contract(on_wait)
        c = do(t._wait_to_fire_event, ctx)
        # the coroutine starts later: executed again with another period in the meantime
        if private(t, '__timeout') is period:
            t._TimerAction__timeout = fresh_real('period of another execution')

        async def go():
            await c
        k, r = outcome(run_coro, go())
        prove('waiting does not fail', k == 'ok', repr(r))
        cancelled = Or(lift(was), lift(during))
        fires = len(ctx.events) == 1
        prove('it fires exactly if it is not cancelled', cancelled == (not fires))
        prove('at most once', len(ctx.events) <= 1)
        prove('it completes once', completed.times == 1)
        if fires:
            prove('the locals belong to the event', ev() == Concat(before, Unit(mine.term)))
        else:
            prove('the events under way stay', ev() == before)
    elif op == 1:
        k, r = outcome(do, t.cancel)
        prove('cancelling never fails', k == 'ok' and r is None, repr(r))
        prove('the timer is cancelled', lift(private(t, '__canceled')) == True)    # noqa: E712
        if started:
            prove('waits are cancelled', lift(fut.isdone) == True)                 # noqa: E712
            prove('cancelling does not complete it', lift(completed.isdone) == done_before)
    else:
        E().assume(Length(before) > 0)
        do(t.handle, ctx)
        prove('one set of locals', len(ctx.extended) == 1)
        prove('events see the locals they were emitted with, in order', And(
            LocalsK.unwrap(ctx.extended[0]) == before[0], ev() == z3.SubSeq(before, IntVal(1), Length(before) - 1)))
