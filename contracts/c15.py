"""C15: a run ends when idle or shut down and reports errors in its return code."""
import asyncio
import threading

from .common import *
import launch.launch_service
import launch.events
from launch import LaunchService

M = launch.launch_service
LS = 'launch.launch_service:LaunchService.'
DONE, CANCELLED, EXC = uf('done', IntS, BoolS), uf('cancelled', IntS, BoolS), uf('exception', IntS, AnyS)


class Exc(SymObj):
    py_class = Exception


ExcK = ObjK('exception', Exc)


class Fut(SymObj):
    """A future: unfinished, cancelled, failed or successful."""

    def done(self):
        return BoolK.wrap(DONE(self.term))

    def cancelled(self):
        return BoolK.wrap(And(DONE(self.term), CANCELLED(self.term)))

    def exception(self):
        if not E().branch(DONE(self.term)):
            raise asyncio.InvalidStateError('not done')
        if E().branch(CANCELLED(self.term)):
            raise asyncio.CancelledError()
        E().assume(Or(AnyS.is_none(EXC(self.term)), AnyS.is_ref(EXC(self.term))))
        return AnyK.wrap(EXC(self.term))


FutK = ObjK('future', Fut)
EntityK = ObjK('entity', SymObj)
PairK = TupK(EntityK, FutK)


def failed(x):
    return And(DONE(x), Not(CANCELLED(x)), Not(AnyS.is_none(EXC(x))))


class EventQueue(Fake):
    def __init__(self, empty):
        self.empty_ = empty

    def empty(self):
        return self.empty_


def service():
    quiet()
    E().path.refkind = ExcK
    return new(LaunchService, noninteractive=True)


def work(s):
    """Arbitrary unfinished and finished work of a service."""
    pairs, futs = fresh_seq('pairs', PairK), fresh_seq('completion', FutK)
    rt.setattr_(s, '_entity_future_pairs', pairs)
    rt.setattr_(s.context, '_completion_futures', futs)
    return pairs, futs


@unit('C15', [LS + '_is_idle', LS + '_prune_and_count_entity_future_pairs', LS + '_prune_and_count_context_completion_futures'])
def idle():
    s = service()
    pairs, futs = work(s)
    open_p = lambda x: Not(DONE(FutK.unwrap(PairK.wrap(x)[1])))   # noqa: E731
    keep_p, keep_f = FilterFold('open pairs', pairs, open_p), FilterFold('open', futs, lambda x: Not(DONE(x)))
    all_p, all_f = ForAllPrefix('all open pairs', pairs, open_p), ForAllPrefix('all open', futs, lambda x: Not(DONE(x)))
    none_p = ForAllPrefix('no open pair', pairs, lambda x: Not(open_p(x)))
    none_f = ForAllPrefix('no open future', futs, DONE)
    for keep, al, no, seq in ((keep_p, all_p, none_p, pairs), (keep_f, all_f, none_f, futs)):
        # filtering law: nothing is kept iff nothing is open; everything is kept if everything is open
        E().assume(no.full == (Length(keep.full) == 0))
        E().assume(Implies(al.full, keep.full == seq.term))
    empty = fresh_bool('queue empty')
    rt.setattr_(s.context, '_event_queue', EventQueue(empty))
    r = do(s._is_idle)
    prove('idle: no event queued and no work unfinished', lift(r) == And(none_p.full, none_f.full, empty.term))
    prove('the unfinished actions stay', s._entity_future_pairs.as_term(PairK) == keep_p.full)
    prove('the unfinished futures stay', s.context._completion_futures.as_term(FutK) == keep_f.full)


@unit('C15', [LS + '_get_exceptions_of_completed_futures'])
def failures():
    s = service()
    pairs, futs = work(s)
    f_of = lambda x: FutK.unwrap(PairK.wrap(x)[1])   # noqa: E731
    mapped = MapFold('futures', pairs, f_of, FutK)
    both = VList(kind=FutK, term=Concat(mapped.full, futs.term))
    want = Fold('exceptions', both, Empty(z3.SeqSort(AnyS)), lambda acc, x: If(failed(x), Concat(acc, Unit(EXC(x))), acc))
    r = do(s._get_exceptions_of_completed_futures)
    prove('the exceptions of the failed futures, in order', r.as_term(AnyK) == want.full)


# ---------------------------------------------------------------- the run loop
class World(Fake):
    """Ghost state of a run."""


class Task(SymObj):
    def done(self):
        w = E().path.world
        return BoolK.wrap(If(AnyS.ref(self.term) == AnyK.unwrap(w.cur), lift(w.curdone), z3.BoolVal(True)))

    def cancel(self):
        w = E().path.world
        prove('events are no longer processed only when the run ends', Or(And(lift(w.shutting()), lift(w.idle)), lift(w.cancelled)))
        prove('the task of this run', AnyS.ref(self.term) == AnyK.unwrap(w.cur))
        rt.setattr_(w, 'stopped', True)

    def cancelled(self):
        return False

    def exception(self):
        w = E().path.world
        prove('the task is finished', self.done())
        if E().branch(lift(w.curfail)):
            rt.setattr_(w, 'seen', True)
            return RuntimeError('event processing failed')
        return None


TaskK = ObjK('task', Task)


class Awaitable:
    def __init__(self, fn):
        self.fn = fn

    def __await__(self):
        return self.fn()
        yield


class OtherFuture(Fake):
    def __init__(self, kind):
        self.kind = kind

    def done(self):
        return True

    def cancelled(self):
        return self.kind == 'cancelled'

    def exception(self):
        if self.kind == 'cancelled':
            raise asyncio.CancelledError()
        return RuntimeError('failed') if self.kind == 'failed' else None


class Completed(Fake):
    """The set of completed tasks of a wait."""

    def __init__(self, w):
        self.w = w

    def vc_contains(self, x):
        return BoolK.wrap(And(AnyK.unwrap(x) == AnyK.unwrap(self.w.cur), lift(self.w.curdone)))

    def __iter__(self):
        out = []
        if E().branch(lift(self.w.pend)):
            out.append(OtherFuture('failed'))
        if choose(2):
            out.append(OtherFuture('cancelled'))
        if E().branch(lift(self.w.curdone)):
            out.append(self.w.task)
        return iter(out)


@unit(('C15', 'C16'), [LS + 'run_async', LS + '_shutdown'], budget=300,
      assumes=('_is_idle and _get_exceptions_of_completed_futures: as decided in units idle and failures',
               '_prepare_run_loop: yields the running loop and task, restores afterwards (unit prepared)',
               'asyncio.wait suspends until a member completes; create_task schedules its coroutine',
               'while the run waits, other code only requests shutdown, adds work and completes futures'))
def run_loop():
    s = service()
    w = World()
    track(w)
    E().path.world = w
    E().path.refkind = TaskK
    cut_while(lambda site: 'run_async' in site)
    swi = fresh_bool('shutdown when idle')
    w.err = w.seen = w.pend = w.curdone = w.curfail = w.cancelled = w.idle = w.asked = w.stopped = False
    w.cur = None
    w.emitted = 0
    w.task = None
    E().assume(Not(lift(private(s, '__shutting_down'))))
    w.shutting = lambda: private(s, '__shutting_down')
    put = rt.setattr_
    fb = lambda n: BoolK.wrap(E().fresh(n, BoolS))   # noqa: E731
    qempty = []

    class Q(Fake):
        def empty(self):
            if not qempty:
                qempty.append(fb('queue empty'))
            return qempty[0]

    rt.setattr_(s.context, '_event_queue', Q())

    class Loop(Fake):
        def set_exception_handler(self, fn):
            w.__dict__['handler'] = fn

        def default_exception_handler(self, c):
            return None

        def create_task(self, coro):
            prove('events are processed', coro is MARK)
            prove('the previous event is finished', Or(AnyS.is_none(AnyK.unwrap(w.cur)), lift(w.curdone)))
            t = TaskK.wrap(E().fresh('task', IntS))
            E().assume(t.term >= 0)
            E().assume(AnyS.ref(t.term) != AnyK.unwrap(w.cur))
            put(w, 'cur', AnyK.wrap(AnyS.ref(t.term)))
            put(w, 'curdone', False)
            w.__dict__['task'] = t
            return t

    loop, MARK = Loop(), object()

    class Run(Fake):
        def __enter__(self):
            return VList([loop, object()], cls=tuple)

        def __exit__(self, *a):
            w.__dict__['left'] = True
            return False
    use_contract(LaunchService._prepare_run_loop, lambda self: Run())
    use_contract(LaunchService._process_one_event, lambda self: MARK)
    use_contract(launch.logging.log_launch_config, lambda **k: None)
    import osrf_pycommon.process_utils
    use_contract(osrf_pycommon.process_utils.get_loop, lambda: loop)
    set_private(s, '__loop_from_run_thread', loop)

    def is_idle(self):
        # prunes the completed futures
        w.__dict__['mapped'] = MapFold('futures of the actions', s._entity_future_pairs, lambda x: FutK.unwrap(PairK.wrap(x)[1]), FutK)
        put(w, 'pend', False)
        put(w, 'idle', fb('idle'))
        put(w, 'asked', True)
        if qempty:
            E().assume(Implies(lift(w.idle), lift(qempty[0])))
        else:
            qempty.append(fb('queue empty'))
            E().assume(Implies(lift(w.idle), lift(qempty[0])))
        return w.idle
    use_contract(LaunchService._is_idle, is_idle)

    def exceptions(self):
        if E().branch(lift(w.pend)):
            put(w, 'seen', True)
            return VList([RuntimeError('one'), RuntimeError('two')])
        return VList([])
    use_contract(LaunchService._get_exceptions_of_completed_futures, exceptions)

    def emit(ctx, event):
        prove('into the context of the service', ctx is s.context)
        prove('a shutdown event', isinstance(event, launch.events.Shutdown))
        put(w, 'emitted', w.emitted + 1)
    use_contract(launch.LaunchContext.emit_event, lambda c, e: Awaitable(lambda: emit(c, e)))
    use_contract(launch.LaunchContext.emit_event_sync, emit)
    pairs, futs = work(s)

    def wait(futures, *, return_when=asyncio.ALL_COMPLETED, timeout=None):
        def go():
            prove('until the first of them completes', return_when == asyncio.FIRST_COMPLETED)
            sh, idl = lift(w.shutting()), lift(w.idle)
            prove('idleness was tested', lift(w.asked))
            prove('a run that is idle after shutdown was requested ends instead of waiting', Not(And(sh, idl)))
            prove('a run that is idle requests shutdown if it should', Not(And(Not(sh), idl, lift(swi))))
            prove('an event is being processed or waited for', And(Not(lift(w.curdone)), Not(AnyS.is_none(AnyK.unwrap(w.cur)))))
            if isinstance(futures, VList) and futures.items is None:
                q = futures.as_term(AnyK) if futures.kind is AnyK else futures.as_term()
                unit_of = (lambda i: AnyS.ref(i)) if futures.kind is AnyK else (lambda i: i)

                def waited(x, i=IntVal(0)):
                    # a witness position in one of the lists that were concatenated
                    return Or([And(i >= 0, i < Length(p), p[i] == unit_of(x)) for p in V.seq_parts(q)])
                prove('event processing is waited for', waited(AnyS.o(AnyK.unwrap(w.cur))))
                now_pairs, now_futs = s._entity_future_pairs, s.context._completion_futures
                i, j = E().fresh('i', IntS), E().fresh('j', IntS)
                qe = lift(qempty[0]) if qempty else z3.BoolVal(False)
                if 'mapped' in w.__dict__:
                    w.mapped.unfold(i)
                fut_i = FutK.unwrap(PairK.wrap(now_pairs.as_term(PairK)[i])[1])
                prove('unfinished actions are waited for if no event is queued', Implies(And(
                    qe, i >= 0, i < Length(now_pairs.as_term(PairK))), waited(fut_i, i)))
                prove('unfinished futures are waited for if no event is queued', Implies(And(
                    qe, j >= 0, j < Length(now_futs.as_term(FutK))), waited(now_futs.as_term(FutK)[j], j)))
            else:
                prove('unfinished actions are waited for if no event is queued', Not(lift(qempty[0])) if qempty else True)
                prove('event processing is waited for', Or([AnyK.unwrap(x) == AnyK.unwrap(w.cur) for x in futures]))
            how = choose(4)
            if how == 1:
                raise KeyboardInterrupt()
            if how == 2:
                put(w, 'cancelled', True)
                raise asyncio.CancelledError()
            if how == 3:
                put(w, 'err', True)
                put(w, 'seen', True)
                w.handler(loop, {})
            put(w, 'curdone', fb('done'))
            put(w, 'curfail', fb('fails'))
            put(w, 'pend', fb('future failed'))
            put(w, 'err', BoolK.wrap(Or(lift(w.err), lift(w.pend), And(lift(w.curdone), lift(w.curfail)))))
            if not set_private(s, '__shutting_down', BoolK.wrap(Or(lift(w.shutting()), E().fresh('asked', BoolS)))):
                raise Unsupported('no field __shutting_down')
            log_write_attr(s, '__shutting_down')
            put(w, 'asked', False)
            work(s)
            del qempty[:]
            return VList([Completed(w), Fake()], cls=tuple)
        return Awaitable(go)
    patch(M, 'asyncio', Facade(asyncio, wait=wait))
    ghost('error reported', lambda: lift(w.seen))
    ghost('task', lambda: AnyK.unwrap(w.cur))
    sh = lambda: lift(private(s, '__shutting_down'))   # noqa: E731
    inv = [('at most one', lambda k: Or(IntK.unwrap(w.emitted) == 0, IntK.unwrap(w.emitted) == 1)),
           ('announced means shutting down', lambda k: Implies(IntK.unwrap(w.emitted) > 0, sh())),
           ('errors are reported or pending', lambda k: lift(w.err) == Or(lift(w.seen), lift(w.pend), And(lift(w.curdone), lift(w.curfail)))),
           ('errors are reported or a future failed', lambda k: lift(w.err) == Or(lift(w.seen), lift(w.pend))),
           ('the task is a task', lambda k: Or(AnyS.is_none(AnyK.unwrap(w.cur)), AnyS.is_ref(AnyK.unwrap(w.cur)))),
           ('not stopped', lambda k: Not(lift(w.stopped))),
           ('not cancelled', lambda k: Not(lift(w.cancelled)))]
    for n, f in inv:
        invariant(n, f)
    k, r = outcome(run_coro, do(s.run_async, shutdown_when_idle=swi))
    prove('the run returns', k == 'ok', repr(r))
    if k == 'raise':
        return
    prove('it ends only when idle after shutdown was requested, or when cancelled',
          Or(lift(w.cancelled), And(lift(w.idle), sh())))
    bad = Or(lift(w.err), lift(w.cancelled))
    prove('the return code is nonzero exactly after an error or cancellation', (IntK.unwrap(r) != 0) == bad)
    prove('at most one shutdown event', And(IntK.unwrap(w.emitted) >= 0, IntK.unwrap(w.emitted) <= 1))
    prove('the run is cleaned up', getattr(w, 'left', False))
    prove('no task is left that would take an event of a later run',
          Or(AnyS.is_none(AnyK.unwrap(w.cur)), lift(w.curdone), lift(w.stopped)))


def log_write_attr(obj, name):
    for c in type(obj).__mro__:
        n = '_%s%s' % (c.__name__.lstrip('_'), name)
        if n in obj.__dict__:
            core.log_write(obj, n, BoolK)
            return


# ---------------------------------------------------------------- around the loop
class GhostQueue(Fake):
    """An event queue: the events in it, in order."""

    def __init__(self, maxsize=0):
        track(self)
        self.limit = maxsize
        rt.setattr_(self, 'events', VList(kind=AnyK, term=Empty(z3.SeqSort(AnyS))))
        E().path.queues.append(self)

    def term(self):
        return self.events.as_term(AnyK)

    def empty(self):
        return BoolK.wrap(Length(self.term()) == 0)

    def qsize(self):
        return IntK.wrap(Length(self.term()))

    def get_nowait(self):
        t = self.term()
        if E().branch(Length(t) == 0):
            raise asyncio.QueueEmpty()
        rt.setattr_(self, 'events', VList(kind=AnyK, term=z3.SubSeq(t, IntVal(1), Length(t) - 1)))
        return AnyK.wrap(t[0])

    def put_nowait(self, x):
        rt.setattr_(self, 'events', VList(kind=AnyK, term=Concat(self.term(), Unit(AnyK.unwrap(x)))))

    def put(self, x):
        return Awaitable(lambda: self.put_nowait(x))

    def get(self):
        return Awaitable(self.get_nowait)


class Loop(Fake):
    def __init__(self):
        self.soon = []

    def set_debug(self, b):
        return None

    def call_soon(self, f, *a):
        self.soon.append((f, a))

    call_soon_threadsafe = call_soon


class Manager(Fake):
    def __init__(self, loop):
        self.loop, self.handlers, self.open_ = loop, {}, None

    def __enter__(self):
        self.open_ = True
        return self

    def __exit__(self, *a):
        self.open_ = False

    def handle(self, signum, fn):
        prove('signals are handled within the scope of the manager', self.open_ is True)
        self.handlers[int(signum)] = fn


@unit(['C15', 'C16'], [LS + '_prepare_run_loop'],
      assumes=('AsyncSafeSignalManager: calls the handlers registered within its scope (C21)',
               'asyncio.Queue is a sequence of events; get_loop and current_task name the running loop and task',
               'logging has no effect'))
def prepared():
    import osrf_pycommon.process_utils
    import signal
    E().path.queues = []
    s = service()
    cut_while(lambda site: '_prepare_run_loop' in site)
    q0 = GhostQueue()
    before = E().fresh('queued', z3.SeqSort(AnyS))
    rt.setattr_(q0, 'events', VList(kind=AnyK, term=before))
    rt.setattr_(s.context, '_event_queue', q0)
    loop, task, managers, set_loops, requests = Loop(), Fake(), [], [], []
    task.cancel = lambda: None
    use_contract(osrf_pycommon.process_utils.get_loop, lambda: loop)

    def manager(l):
        managers.append(Manager(l))
        return managers[-1]
    use_contract(M.AsyncSafeSignalManager, manager)
    use_contract(LaunchContext._set_asyncio_loop, lambda c, l: set_loops.append(l))
    use_contract(LaunchService._shutdown, lambda self, **k: requests.append(k))
    use_contract(M.AsyncSafeSignalManager, manager)
    patch(M, 'asyncio', Facade(asyncio, Queue=GhostQueue, current_task=lambda l=None: task))
    sh0 = fresh_bool('shutting down')
    if not set_private(s, '__shutting_down', sh0):
        raise Unsupported('no field __shutting_down')

    def carried(k):
        # events move from the old to the new queue in order
        t = Empty(z3.SeqSort(AnyS))
        for q in reversed(E().path.queues):
            t = Concat(t, q.term())
        return t == before
    invariant('no event is lost or reordered', carried)
    running = bool(choose(2))
    other = Loop()
    if running:
        set_private(s, '__loop_from_run_thread', other)
    cm = do(s._prepare_run_loop)
    k, r = outcome(cm.__enter__)
    if running:
        prove('a concurrent run is refused', k == 'raise' and isinstance(r, RuntimeError), repr(r))
        prove('a refused run leaves the loop of the running one', s.event_loop is other and not set_loops)
        prove('a refused run leaves a requested shutdown', lift(private(s, '__shutting_down')) == sh0.term)
        prove('a refused run leaves the queue', And(s.context._event_queue is q0, q0.term() == before))
        return
    prove('a run starts', k == 'ok', repr(r))
    if k != 'ok':
        return
    prove('running loop and task are passed on', r[0] is loop and r[1] is task)
    prove('requests from now on concern this run', s.event_loop is loop)
    prove('the context uses the loop', set_loops == [loop])
    prove('the queue of the run is unbounded', s.context._event_queue.limit == 0)
    prove('queued events are carried over in order', s.context._event_queue.term() == before)
    prove('the shutdown request in effect is kept', lift(private(s, '__shutting_down')) == sh0.term)
    prove('one signal manager for the loop', len(managers) == 1 and managers[0].loop is loop and managers[0].open_)
    m = managers[0]
    prove('interrupts are handled', {int(signal.SIGINT), int(signal.SIGTERM), int(signal.SIGQUIT)} <= set(m.handlers))
    if choose(2):
        do(m.handlers[int(signal.SIGINT)], signal.SIGINT)
        prove('an interrupt requests shutdown', len(requests) == 1 and requests[0].get('due_to_sigint') is True)
        prove('an interrupt requests shutdown before the handler returns', requests[0].get('force_sync') is True)
        do(m.handlers[int(signal.SIGINT)], signal.SIGINT)
        prove('a second interrupt is ignored', len(requests) == 1)
    else:
        do(m.handlers[[int(signal.SIGTERM), int(signal.SIGQUIT)][choose(2)]], signal.SIGTERM)
        prove('a termination signal cancels the run', len(loop.soon) == 1 and loop.soon[0][0] is task.cancel and not requests)
    if choose(2):
        k, r = outcome(cm.__exit__, None, None, None)
        prove('a finished run is cleaned up', k == 'ok', repr(r))
    else:
        exc = RuntimeError('stop')
        k, r = outcome(cm.__exit__, RuntimeError, exc, None)
        prove('errors are passed on', (k == 'raise' and r is exc) or (k == 'ok' and not r))
    prove('signal handling ends with the run', m.open_ is False)
    prove('no loop is in use after a run', s.event_loop is None and set_loops == [loop, None])
    prove('a new run is not shutting down', Not(lift(private(s, '__shutting_down'))))
    prove('events left over are still queued', s.context._event_queue.term() == before)


@unit('C15', [LS + '_shutdown', LS + 'shutdown'],
      assumes=('LaunchContext.emit_event(_sync) and LaunchService.emit_event queue the event (C16)',))
def shutdown_requests():
    import osrf_pycommon.process_utils
    s = service()
    loop, emitted, is_shut, inside = Loop(), [], [], []
    sh0 = fresh_bool('shutting down')
    where = choose(4)      # 0: thread of the loop, 1: thread of another loop, 2, 3: no loop

    def get_loop():
        if inside:
            return loop
        if where == 2:
            raise RuntimeError('no loop')
        if where == 3:
            raise AssertionError('no loop')
        return loop if where == 0 else Loop()
    use_contract(osrf_pycommon.process_utils.get_loop, get_loop)

    def emit(how):
        def f(obj, event):
            if how == 'async':
                return Awaitable(lambda: emitted.append(('async', obj, event)))
            emitted.append((how, obj, event))
        return f
    use_contract(LaunchContext.emit_event, emit('async'))
    use_contract(LaunchContext.emit_event_sync, emit('sync'))
    use_contract(LaunchService.emit_event, emit('thread-safe'))
    use_contract(LaunchContext._set_is_shutdown, lambda c, v: is_shut.append(v))
    if not set_private(s, '__shutting_down', sh0):
        raise Unsupported('no field __shutting_down')
    how = choose(3)        # 0: request by the run itself, 1: shutdown() during a run, 2: outside a run
    force = bool(choose(2))
    reason, sigint = fresh_str('reason'), fresh_bool('due to sigint')
    if how != 2:
        set_private(s, '__loop_from_run_thread', loop)
    if how == 0:
        r = do(s._shutdown, reason=reason, due_to_sigint=sigint, force_sync=force)
    else:
        r = do(s.shutdown, force)
    if r is not None:
        prove('a coroutine is returned only where it can be awaited', where == 0 and not force)

        async def go():
            await r
        run_coro(go())
    if how == 2:
        prove('a request outside a run does nothing', not emitted and not is_shut and r is None)
        prove('a request outside a run does not shut down a later one', lift(private(s, '__shutting_down')) == sh0.term)
        return
    raced = False
    if loop.soon:
        # left to the thread of the loop, where meanwhile anything may have happened
        prove('only requests from other threads wait for the loop', where != 0 and not force and not emitted)
        inside.append(True)
        raced = choose(4)
        if raced == 1:
            set_private(s, '__loop_from_run_thread', None)
            set_private(s, '__shutting_down', False)
        if raced == 2:
            set_private(s, '__shutting_down', True)
        if raced == 3:
            set_private(s, '__this_task', Fake())       # a later run of the same loop
        for f, a in loop.soon:
            do(f, *a)
        if raced in (1, 3):
            prove('a late request does not concern a later run', not emitted and (raced == 3 or private(s, '__shutting_down') is False))
            return
    if E().branch(sh0.term) or raced == 2:
        prove('further requests are ignored', not emitted)
    else:
        prove('a request is announced by one event', len(emitted) == 1)
        w, obj, event = emitted[0]
        prove('a shutdown event', isinstance(event, launch.events.Shutdown))
        prove('the event is queued in the context of the service', obj is (s if w == 'thread-safe' else s.context))
        if force:
            prove('a forced request is announced at once', w == 'sync')
        elif where == 0:
            prove('the thread of the loop does not wait for itself', w != 'thread-safe')
        else:
            prove('requests from other threads are thread-safe', w == 'thread-safe' or len(loop.soon) > 0)
        if how == 0:
            prove('the event says why', lift(event.reason == reason))
            prove('the event says whether it was an interrupt', lift(event.due_to_sigint) == sigint.term)
        else:
            prove('no interrupt', event.due_to_sigint is False)
    prove('the service is shutting down', private(s, '__shutting_down') is True)
    prove('the context knows', is_shut[-1:] == [True] or raced == 2)


@unit('C15', [LS + '_LaunchService__on_shutdown', LS + '__init__'])
def shutdown_event():
    s = service()
    prove('a new service is not shutting down', private(s, '__shutting_down') is False)
    is_shut = []
    use_contract(LaunchContext._set_is_shutdown, lambda c, v: is_shut.append(v))
    event = new(launch.events.Shutdown, reason='why')
    hs = [h for h in s.context._event_handlers if do(h.matches, event)]
    prove('shutdown events are handled', len(hs) == 1)
    do(hs[0].handle, event, s.context)
    prove('a shutdown event shuts the run down, whoever emitted it', private(s, '__shutting_down') is True and is_shut == [True])


@unit('C15', [LS + 'run'], assumes=('loop.run_until_complete returns the result of the task or is interrupted',))
def run():
    import osrf_pycommon.process_utils
    cut_while(lambda site: 'run' in site)
    s = service()
    task, coro, seen = object(), object(), []
    rc, swi = fresh_int('rc'), fresh_bool('shutdown when idle')

    class L(Fake):
        def create_task(self, c):
            prove('the run is started once', c is coro and not seen)
            seen.append(c)
            return task

        def run_until_complete(self, t):
            prove('the run is driven to its end', t is task)
            if choose(2):
                raise KeyboardInterrupt()
            return rc
    use_contract(osrf_pycommon.process_utils.get_loop, lambda: L())

    def run_async(self, **k):
        prove('the option is passed on', self is s and lift(k.get('shutdown_when_idle')) == swi.term)
        return coro
    use_contract(LaunchService.run_async, run_async)
    k, r = outcome(do, s.run, shutdown_when_idle=swi)
    prove('the return code of the run is returned', k == 'ok' and IntK.unwrap(r) == rc.term, repr(r))
