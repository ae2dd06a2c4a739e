"""C16: emitted events are neither lost, duplicated nor reordered."""
import asyncio

from .common import *
from .c15 import Awaitable, EventQueue, GhostQueue, Loop, service     # noqa: F401
import launch.actions
import launch.events
import launch.launch_service
from launch import Condition, Event, LaunchContext, LaunchService

M = launch.launch_service
LS = 'launch.launch_service:LaunchService.'
LC = 'launch.launch_context:LaunchContext.'


def context_with(events):
    """A context whose queue holds arbitrary events."""
    E().path.queues = []
    patch(launch.launch_context, 'asyncio', Facade(asyncio, Queue=GhostQueue))
    c = new(LaunchContext, noninteractive=True)
    c._set_is_shutdown(fresh_bool('is_shutdown'))
    q = c._event_queue
    prove('the queue of a new context is empty and unbounded', len(E().path.queues) == 1 and q is E().path.queues[0]
          and q.limit == 0 and Length(q.term()) == 0)
    rt.setattr_(q, 'events', VList(kind=AnyK, term=events))
    return c, q


EVENT_NAME = z3.Function('event_name', IntS, z3.StringSort())


class Ev(SymObj):
    py_class = Event

    @property
    def name(self):
        return StrK.wrap(EVENT_NAME(self.term))


EvK = ObjK('event', Ev)


def appended(q, before, *evs):
    t = before
    for e in evs:
        t = Concat(t, Unit(AnyK.unwrap(e)))
    return q.term() == t


@unit('C16', [LC + 'emit_event_sync', LC + 'emit_event', LC + '__init__'],
      assumes=('asyncio.Queue() is an unbounded first-in first-out queue: put and put_nowait append, get and get_nowait take the first',))
def emit_into_context():
    quiet()
    E().path.refkind = EvK
    before = E().fresh('queued', z3.SeqSort(AnyS))
    c, q = context_with(before)
    a, b = fresh_obj('first', EvK), fresh_obj('second', EvK)
    for e in (a, b):
        if choose(2):
            do(c.emit_event_sync, e)
        else:
            run_coro(do(c.emit_event, e))
    prove('events are queued once each in emission order', appended(q, before, a, b))
    prove('the queue stays the same', c._event_queue is q)


@unit('C16', ['launch.actions.emit_event:EmitEvent.__init__', 'launch.actions.emit_event:EmitEvent.execute',
              'launch.actions.emit_event:EmitEvent.event'])
def emit_action():
    quiet()
    E().path.refkind = EvK
    before = E().fresh('queued', z3.SeqSort(AnyS))
    c, q = context_with(before)
    ev = launch.events.Shutdown(reason='x') if choose(2) else new(Event)
    action = new(launch.actions.EmitEvent, event=ev)
    prove('the event of the action is the given one', action.event is ev)
    r = do(action.visit, c) if choose(2) else do(action.execute, c)
    prove('nothing is left to visit', r is None or len(list(r)) == 0)
    prove('the event is queued once, after the others', appended(q, before, ev))
    do(action.execute, c)
    prove('each execution emits the event once', appended(q, before, ev, ev))


@unit('C16', ['launch.actions.shutdown_action:Shutdown.execute'])
def shutdown_action():
    quiet()
    E().path.refkind = EvK
    before = E().fresh('queued', z3.SeqSort(AnyS))
    c, q = context_with(before)
    c._push_locals()
    action = new(launch.actions.Shutdown, reason='why')
    do(action.execute, c)
    prove('one shutdown event after the others', And(Length(q.term()) == Length(before) + 1,
                                                     z3.SubSeq(q.term(), IntVal(0), Length(before)) == before))


@unit('C16', ['launch.actions.shutdown_action:Shutdown.__init__', 'launch.actions.shutdown_action:Shutdown.execute',
              'launch.events.shutdown:Shutdown.__init__', 'launch.events.shutdown:Shutdown.reason',
              'launch.events.shutdown:Shutdown.due_to_sigint'])
def shutdown_event():
    quiet()
    sent, c = [], new(LaunchContext, noninteractive=True)
    use_contract(LaunchContext.emit_event_sync, lambda ctx, e: sent.append((ctx, e)))
    c._push_locals()
    k = choose(4)
    if k:       # what is being handled does not change what is emitted
        handled = (new(launch.events.Shutdown), new(Event), new(launch.events.process.ProcessExited, action=None, name='n', cmd=['c'],
                                                              cwd=None, env=None, pid=1, returncode=fresh_int('code')))[k - 1]
        do(c.extend_locals, {'event': handled})
    cond, holds = None, fresh_bool('holds')
    if choose(2):
        class Given(Condition):
            def evaluate(self, context):
                return holds
        cond = Given()
    reason = fresh_str('reason')
    action = new(launch.actions.Shutdown, reason=reason, condition=cond)
    times = 1 + choose(2)
    for _ in range(times):
        if cond is None and choose(2):
            do(action.execute, c)
        else:
            do(action.visit, c)
    n = times if cond is None or E().branch(holds.term) else 0
    prove('one shutdown event per execution', len(sent) == n and all(x is c and isinstance(e, launch.events.Shutdown) for x, e in sent))
    for _, e in sent:
        prove('with the given reason', e.reason == reason)
        prove('which is not due to an interrupt', e.due_to_sigint is False)
    e = new(launch.events.Shutdown, reason=reason, due_to_sigint=fresh_bool('due'))
    prove('an event keeps its reason', e.reason == reason)


@unit('C16', [LS + 'emit_event', LS + 'include_launch_description'],
      assumes=('asyncio.run_coroutine_threadsafe runs the coroutine in the given loop, calls from one thread in order',
               'the running loop is the one asyncio reports'))
def emit_into_service():
    s = service()
    loop, other, log = Loop(), Loop(), []
    state = choose(4)          # 0: no run; run: 1 called from another thread, 2 from another loop, 3 from its own loop
    inside = state == 3

    class Lock(Fake):
        held = False

        def __enter__(self):
            prove('the lock is not entered twice', not self.held)
            self.held = True
            return self

        def __exit__(self, *a):
            self.held = False
            return False

        acquire = __enter__

        def release(self):
            self.held = False
    lock = Lock()
    if not set_private(s, '__loop_from_run_thread_lock', lock):
        raise Unsupported('no lock')
    set_private(s, '__loop_from_run_thread', loop if state else None)
    if state == 0:
        # the loop a caller happens to run in is not the loop of a run
        pass

    class Fut(Fake):
        def __init__(self, coro):
            self.coro = coro

        def result(self, timeout=None):
            prove('the lock is not held while waiting for the loop', not lock.held)
            prove('the loop does not wait for itself', not inside)
            prove('one waits until the event is emitted', timeout is None)
            if self.coro is not None:
                coro, self.coro = self.coro, None

                async def go():
                    await coro
                run_coro(go())
            log.append('waited')

    def threadsafe(coro, lp):
        prove('the loop of the run emits the event', lp is loop)
        return Fut(coro)

    def running():
        if state in (0, 1):
            raise RuntimeError('no running event loop')
        return loop if inside else other
    patch(M, 'asyncio', Facade(asyncio, run_coroutine_threadsafe=threadsafe, get_running_loop=running,
                               _get_running_loop=lambda: {2: other, 3: loop}.get(state)))

    def sync(c, e):
        prove('into the context of the service', c is s.context)
        prove('other threads do not touch the queue of a run', state in (0, 3))
        prove('whether a run is in progress is looked at under the lock', lock.held or state == 3)
        log.append(e)
    use_contract(LaunchContext.emit_event_sync, sync)

    def emit(c, e):
        prove('into the context of the service', c is s.context)
        return Awaitable(lambda: log.append(e))
    use_contract(LaunchContext.emit_event, emit)
    if choose(2):
        ev = new(Event)
        k, r = outcome(do, s.emit_event, ev)
        prove('the event is emitted', k == 'ok' and r is None, repr(r))
        prove('the event is emitted once', [x for x in log if x != 'waited'] == [ev])
    else:
        ld = launch.LaunchDescription([])
        k, r = outcome(do, s.include_launch_description, ld)
        got = [x for x in log if x != 'waited']
        prove('a description is included by one event', k == 'ok' and len(got) == 1
              and isinstance(got[0], launch.events.IncludeLaunchDescription), repr(r))
        if len(got) == 1:
            prove('for this description', got[0].launch_description is ld)
    prove('emission from another thread is complete on return', state in (0, 3) or 'waited' in log)
    prove('the lock is released', not lock.held)


@unit('C16', [LS + '_process_one_event'], assumes=('__process_event handles the event it is given (C05)',))
def process_one():
    s = service()
    E().path.queues = []
    E().path.refkind = EvK
    q = GhostQueue()
    before = E().fresh('queued', z3.SeqSort(AnyS))
    first = fresh_obj('first', EvK)
    rt.setattr_(q, 'events', VList(kind=AnyK, term=Concat(Unit(AnyK.unwrap(first)), before)))
    rt.setattr_(s.context, '_event_queue', q)
    seen = []
    process = getattr(LaunchService, '_LaunchService__process_event', None)
    if process is None:
        raise Unsupported('no __process_event')

    def spec(self, event):
        prove('one event at a time', not seen)
        return Awaitable(lambda: seen.append(event))
    use_contract(process, spec)
    run_coro(do(s._process_one_event))
    prove('the first event in the queue is processed', len(seen) == 1 and AnyK.unwrap(seen[0]) == AnyK.unwrap(first))
    prove('the other events stay queued in order', q.term() == before)


@unit('C16', ['launch.launch_service:LaunchService.__init__'])
def new_service():
    E().path.queues = []
    patch(launch.launch_context, 'asyncio', Facade(asyncio, Queue=GhostQueue))
    s = service()
    prove('a new service has an empty queue', len(E().path.queues) == 1 and Length(s.context._event_queue.term()) == 0)
