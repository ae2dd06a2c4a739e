"""C32: waiting for output, start or exit of a process misses nothing and ends by its timeout."""
import asyncio
import threading
import time

from .common import *
from pyvc.api import cut_while, ghost, invariant, run_coro
from .execlocal import tm
import launch_pytest.tools.process as PT
from launch.actions import ExecuteProcess
from launch.events.process import ProcessExited, ProcessIO, ProcessStarted

P = 'launch_pytest.tools.process:'
HOLDS = uf('condition', IntS, z3.BoolSort())
RealS = z3.RealSort()
ASSUMES = ('threading.Event, asyncio.Event and asyncio.wait_for; time.time does not go backwards', 'the handler is called for each event while it is registered (C04, C05)')


class Raised(KeyError, ValueError, TypeError, RuntimeError, AttributeError):
    """Any error of a user."""


class Late(TimeoutError):
    """An error of a user that looks like the end of a wait."""


ERRORS = (Raised, Late)


class World_(Fake):
    """The process, the clock and the other threads."""


def world(threads):
    """threads: other code runs at any time, and not only while this waits."""
    g = World_()
    track(g)
    put = rt.setattr_
    z = lambda n: E().fresh(n, IntS)   # noqa: E731
    put(g, 'out', IntK.wrap(z('outputs so far')))
    E().assume(tm(g.out) >= 0)
    put(g, 'seen', -1)
    put(g, 'flag', False)
    put(g, 'registered', False)
    put(g, 'now', RealK.wrap(E().fresh('now', RealS)))
    put(g, 'read', g.now)
    put(g, 'start', g.now)
    put(g, 'begun', False)
    put(g, 'news', False)      # an event since the handler was registered
    put(g, 'old', False)       # the event has been waited for and not been cleared since
    put(g, 'late', False)      # time has passed since the clock was read
    p = E().path
    p.handler = None

    def events(more):
        """Some outputs of the process."""
        d = z('outputs')
        E().assume(d > 0 if more else d >= 0)
        put(g, 'out', IntK.wrap(tm(g.out) + d))
        came = And(d > 0, tm(lift(g.registered)))
        if p.handler is not None and E().branch(came):
            p.handler()

    def time_passes():
        n = E().fresh('now', RealS)
        E().assume(n >= tm(g.now))
        put(g, 'now', RealK.wrap(n))

    def meanwhile():
        time_passes()
        if threads:
            events(False)
    g.__dict__['events'], g.__dict__['time_passes'], g.__dict__['meanwhile'] = events, time_passes, meanwhile

    class Event(Fake):
        def set(self):
            put(g, 'flag', True)
            put(g, 'news', True)

        def clear(self):
            meanwhile()
            put(g, 'flag', False)
            put(g, 'old', False)

        def is_set(self):
            meanwhile()
            return g.flag

        def wait(self, timeout=None):
            return wait(timeout) if threads else ('wait',)

    def wait(timeout):
        """Whether the event is set within the time."""
        meanwhile()
        if timeout is not None and p.condition:
            prove('never waits beyond the timeout', Not(tm(lift(g.late))))
        put(g, 'late', True)
        if E().branch(tm(lift(g.flag))):
            prove('an event wakes once', Not(tm(lift(g.old))))
            put(g, 'old', True)
            return True
        prove('nothing that is unseen is waited for', tm(g.seen) == tm(g.out) if p.condition else True)
        if timeout is not None:
            prove('never waits beyond the timeout', p.timeout is not None and
                  tm(lift(timeout)) <= tm(lift(g.start)) + p.timeout.term - tm(lift(g.read)) if p.condition else
                  lift(timeout) == p.timeout)
        else:
            prove('waits for ever only if asked to', p.timeout is None)
        before = tm(g.now)
        time_passes()
        if timeout is not None and choose(2):
            E().assume(tm(g.now) >= before + tm(lift(timeout)))
            return False
        events(True)
        put(g, 'old', True)
        if timeout is not None:
            E().assume(Or(tm(g.now) <= before + tm(lift(timeout)), tm(g.now) == before))
        return True

    def clock():
        meanwhile()
        put(g, 'read', g.now)
        put(g, 'late', False)
        if not E().branch(tm(lift(g.begun))):
            put(g, 'begun', True)
            put(g, 'start', g.now)
        return g.now

    class Ctx(Fake):
        def register_event_handler(self, h, append=False):
            meanwhile()
            prove('one handler, after those of launch', append is True and p.mine is None)
            p.mine = h
            put(g, 'registered', True)

        def unregister_event_handler(self, h):
            prove('the handler that was registered', h is p.mine)
            put(g, 'registered', False)
            p.mine = None
    p.mine = None

    async def wait_for(aw, timeout=None):
        if aw != ('wait',):
            raise Unsupported('waiting for something else')
        if not wait(timeout):
            raise asyncio.TimeoutError()
        return True
    patch(PT, 'threading', Facade(threading, Event=Event))
    patch(PT, 'asyncio', Facade(asyncio, Event=Event, wait_for=wait_for))
    patch(PT, 'time', Facade(time, time=clock, monotonic=clock, perf_counter=clock))
    action = object()

    def handler_for(a, pyevent):
        prove('the process asked for', a is action)
        p.handler = lambda: rt.call(pyevent.set)
        return object()
    return g, Ctx(), action, handler_for


def invariants(g):
    invariant('registered', lambda k: tm(lift(g.registered)))
    invariant('what is unseen has set the event', lambda k: Or(tm(lift(g.flag)), tm(g.seen) == tm(g.out)))
    invariant('the condition has been asked', lambda k: And(tm(g.seen) >= 0, tm(g.seen) <= tm(g.out)))
    invariant('time', lambda k: And(tm(lift(g.begun)), tm(lift(g.start)) <= tm(lift(g.read)), tm(lift(g.read)) <= tm(lift(g.now))))
    invariant('cleared', lambda k: Not(tm(lift(g.old))))
    invariant('the clock has been read', lambda k: Not(tm(lift(g.late))))
    ghost('condition', lambda: HOLDS(tm(g.seen)))
    ghost('time', lambda: tm(lift(g.read)))
    ghost('start', lambda: tm(lift(g.start)))


def waiting(threads):
    g, ctx, action, handler_for = world(threads)
    p = E().path
    p.condition = True
    p.timeout = SymNum(E().fresh('timeout', RealS)) if choose(2) else None
    cut_while(lambda site: '_wait_for_event_with_condition' in site)
    invariants(g)

    def condition():
        g.meanwhile()
        rt.setattr_(g, 'seen', g.out)
        if not p.loops and choose(2):
            raise ERRORS[choose(2)]()
        return BoolK.wrap(HOLDS(tm(g.seen)))
    f = PT._wait_for_event_with_condition_sync if threads else PT._wait_for_event_with_condition
    call = lambda: do(f, ctx, action, handler_for, condition, **({} if p.timeout is None else dict(timeout=p.timeout)))   # noqa: E731
    k, r = outcome(call if threads else lambda: run_coro(call()))
    prove('the handler is gone', p.mine is None and Not(tm(lift(g.registered))))
    if k == 'raise':
        prove('only errors of the condition', isinstance(r, ERRORS), repr(r))
        return
    prove('what the condition says of the output', tm(lift(r)) == HOLDS(tm(g.seen)))
    late = False if p.timeout is None else tm(lift(g.now)) >= tm(lift(g.start)) + p.timeout.term
    prove('in vain only after the timeout', Or(tm(lift(r)), late))


@unit('C32', [P + '_wait_for_event_with_condition_sync', P + 'register_event_handler'], assumes=ASSUMES)
def waiting_in_a_thread():
    """Any number of outputs at any time, any condition on them, any timeout or none."""
    waiting(True)


@unit('C32', [P + '_wait_for_event_with_condition', P + 'register_event_handler'],
      assumes=ASSUMES + ('other tasks run only while this one waits',))
def waiting_in_the_loop():
    """Any number of outputs while this waits, any condition on them, any timeout or none."""
    waiting(False)


@unit('C32', [P + '_wait_for_event', P + '_wait_for_event_sync', P + 'register_event_handler'], assumes=ASSUMES)
def waiting_for_an_event():
    threads = bool(choose(2))
    g, ctx, action, handler_for = world(threads)
    p = E().path
    p.condition = False
    p.timeout = SymNum(E().fresh('timeout', RealS)) if choose(2) else None
    f = PT._wait_for_event_sync if threads else PT._wait_for_event
    call = lambda: do(f, ctx, action, handler_for, **({} if p.timeout is None else dict(timeout=p.timeout)))   # noqa: E731
    k, r = outcome(call if threads else lambda: run_coro(call()))
    prove('the handler is gone', k == 'ok' and p.mine is None and Not(tm(lift(g.registered))), repr(r))
    prove('whether there was an event', tm(lift(r)) == tm(lift(g.news)))
    prove('in vain only with a timeout', tm(lift(r)) if p.timeout is None else True)


class Set(Fake):
    def __init__(self):
        self.n = 0

    def set(self):
        self.n += 1


WAITS = {'output': 1, 'stderr': 2}


@unit('C32', [P + n + s for n in ('wait_for_output', 'wait_for_stderr', 'assert_output', 'assert_stderr', 'wait_for_start', 'wait_for_exit') for s in ('', '_sync')]
      + [P + n for n in ('_get_stdout_event_handler', '_get_stderr_event_handler', '_get_on_process_start_event_handler',
                         '_get_on_process_exit_event_handler')],
      assumes=('_wait_for_event..: as decided in the other units', 'ExecuteLocal.get_stdout, get_stderr (C24)'))
def what_is_waited_for():
    sync = choose(2)
    what = ['output', 'stderr', 'start', 'exit'][choose(4)]
    asserts = what in WAITS and choose(2)
    a, other = new(ExecuteProcess, cmd=['a']), new(ExecuteProcess, cmd=['b'])
    texts = {'output': fresh_str('stdout'), 'stderr': fresh_str('stderr')}
    use_contract(ExecuteProcess.get_stdout, lambda self: texts['output'] if self is a else None)
    use_contract(ExecuteProcess.get_stderr, lambda self: texts['stderr'] if self is a else None)
    ctx, timeout, calls, asked = object(), [None, 2.5][choose(2)], [], []
    result = bool(choose(2))
    io = {n: new(ProcessIO, action=a, name='a', cmd=['a'], cwd=None, env=None, pid=1, text=b'', fd=fd) for n, fd in WAITS.items()}
    same_ = dict(name='a', cmd=['a'], cwd=None, env=None, pid=1)
    evs = {**io, 'start': new(ProcessStarted, action=a, **same_), 'exit': new(ProcessExited, action=a, returncode=0, **same_)}
    others = [new(ProcessIO, action=other, text=b'', fd=fd, **same_) for fd in (1, 2)] + [
        new(ProcessStarted, action=other, **same_), new(ProcessExited, action=other, returncode=0, **same_)]

    def waited(c, x, get_handler, condition=None, t=None):
        prove('for this process and this long', c is ctx and x is a and t == timeout and (condition is not None) == (what in WAITS))
        calls.append(condition)
        e = Set()
        h = do(get_handler, a, e)
        for n, x in list(evs.items()) + [('other', x) for x in others]:
            k = e.n
            m = do(h.matches, x)
            if m:
                do(h.handle, x, new_context())
            prove('woken exactly by what is waited for', e.n - k == (1 if n == what else 0))
        for held in (True, False):
            if condition is not None:
                asked.clear()
                k, r = outcome(do, condition)
                prove('asked about the output of the process', len(asked) == 1)
                if asserts:
                    prove('an assertion that fails does not hold', (k == 'ok' and bool(r) is True) if said[-1] == 'holds' else
                          (k == 'ok' and bool(r) is False) if said[-1] == 'fails' else (k == 'raise' and isinstance(r, ERRORS)), repr(r))
                else:
                    prove('what the function says', (k == 'raise' and isinstance(r, ERRORS)) if said[-1] == 'raises' else k == 'ok' and r is said[-1], repr(r))
                if k == 'raise':
                    raise ERRORS[choose(2)]()
        return result

    async def waited_async(*args):
        return waited(*args)
    use_contract(PT._wait_for_event_with_condition_sync, waited)
    use_contract(PT._wait_for_event_sync, lambda c, x, g, t=None: waited(c, x, g, None, t))
    use_contract(PT._wait_for_event_with_condition, waited_async)
    use_contract(PT._wait_for_event, lambda c, x, g, t=None: waited_async(c, x, g, None, t))
    said = []

    def validate(text):
        asked.append(text)
        prove('the text of that stream', StrK.unwrap(text) == texts[what].term)
        how = choose(3)
        if how == 2:
            said.append('raises')
            raise ERRORS[choose(2)]()
        if asserts:
            said.append(['holds', 'fails'][how])
            if how:
                raise AssertionError()
            return None
        said.append([True, False][how])
        return said[-1]
    f = getattr(PT, '%s_%s%s' % ('assert' if asserts else 'wait_for', what, '_sync' if sync else ''))
    args = (ctx, a) + ((validate,) if what in WAITS else ())
    kw = {} if timeout is None else dict(timeout=timeout)
    k, r = outcome(lambda: do(f, *args, **kw) if sync else run_coro(do(f, *args, **kw)))
    prove('waited once', len(calls) == 1)
    if said and said[-1] == 'raises':
        prove('errors of the function are its own', k == 'raise' and isinstance(r, ERRORS), repr(r))
    elif not asserts:
        prove('whether it came', k == 'ok' and bool(r) is result, repr(r))
    elif result:
        prove('it came', k == 'ok', repr(r))
    else:
        prove('the last output decides', k == 'ok' if said[-1] == 'holds' else k == 'raise' and isinstance(r, AssertionError), repr(r))
