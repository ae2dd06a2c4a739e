"""C05: registration order, removal, would-handle, one-shot handlers, event in the locals."""
import collections

from .common import *
from launch import Action, Event
from launch.event_handler import BaseEventHandler, EventHandler
from launch.event_handlers import (OnExecutionComplete, OnIncludeLaunchDescription, OnProcessExit, OnProcessIO,
                                   OnProcessStart, OnShutdown)
import launch.actions
import launch.event_handlers
import launch.events.process
from launch.events import ExecutionComplete, Shutdown
from launch.actions import RegisterEventHandler, UnregisterEventHandler

CTX = 'launch.launch_context:LaunchContext.'
EH = 'launch.event_handler:'
OA = 'launch.event_handlers.on_action_event_base:OnActionEventBase.'
MATCH = uf('matches', IntS, BoolS)
RETVAL = uf('handler_returns', IntS, AnyS)


class Handler(SymObj):
    py_class = BaseEventHandler

    def matches(self, event):
        prove('the given event is asked about', event is E().path.event)
        return BoolK.wrap(MATCH(self.term))


HK = ObjK('handler', Handler)


class Ent(SymObj):
    py_class = launch.LaunchDescriptionEntity


EntK = ObjK('entity', Ent)


def _ctx():
    ctx = new_context()
    d = VList(kind=RefK, term=E().fresh('handlers', z3.SeqSort(IntS)), cls=collections.deque)
    E().path.refkind = HK
    object.__setattr__(ctx, '_event_handlers', d)
    return ctx, d.term


def handlers(ctx):
    v = ctx._event_handlers
    return v.as_term(RefK) if isinstance(v, VList) else None


@unit('C05', [CTX + 'register_event_handler', 'launch.actions.register_event_handler:RegisterEventHandler.execute'])
def registration():
    ctx, h0 = _ctx()
    h = fresh_obj('h', HK)
    u = Unit(h.term)
    how = choose(4)
    if how == 0:
        do(ctx.register_event_handler, h)
    elif how == 1:
        do(ctx.register_event_handler, h, append=False)
    elif how == 2:
        do(ctx.register_event_handler, h, append=True)
    else:
        a = new(RegisterEventHandler, h)
        do(a.execute, ctx)
    want = Concat(h0, u) if how == 2 else Concat(u, h0)
    prove('the new handler is in front, or behind when appending', handlers(ctx) == want)


@unit('C05', [CTX + 'unregister_event_handler',
              'launch.actions.unregister_event_handler:UnregisterEventHandler.execute'])
def removal():
    ctx, h0 = _ctx()
    h = fresh_obj('h', HK)
    u = Unit(h.term)
    k, x = outcome(do, ctx.unregister_event_handler, h) if choose(2) else \
        outcome(lambda: do(new(UnregisterEventHandler, h).execute, ctx))
    if k == 'raise':
        prove('only an unregistered handler is an error', And(z3.BoolVal(isinstance(x, ValueError)),
                                                              Not(z3.Contains(h0, u))), repr(x))
        prove('nothing is removed on an error', handlers(ctx) == h0)
    else:
        _removed(ctx, h0, h.term)


def _removed(ctx, h0, t):
    """One occurrence of t less, all others kept in order."""
    prove('an unregistered handler was registered', z3.Contains(h0, Unit(t)))
    h1 = handlers(ctx)
    rem = getattr(ctx._event_handlers, 'removed', None)
    if rem is not None:
        pre, u, suf = rem
        prove('exactly one registration of the handler is removed',
              And(h0 == Concat(pre, u, suf), u == Unit(t), h1 == Concat(pre, suf)))
    else:
        prove('exactly one registration of the handler is removed', h1 == z3.Replace(h0, Unit(t), Empty(z3.SeqSort(IntS))))


@unit('C05', [CTX + 'would_handle_event'])
def would_handle():
    ctx, h0 = _ctx()
    ctx._event_handlers.kind = HK
    E().path.event = Event()
    F = ForAllPrefix('nomatch', VList(kind=HK, term=h0), lambda h: Not(MATCH(h)))
    r = do(ctx.would_handle_event, E().path.event)
    prove('would handle exactly if a handler matches', lift(r) == Not(F.full))
    prove('asking changes no registration', handlers(ctx) == h0)


def _handled(h, event, once, want, self_registered=None):
    """Effect of h.handle on a context with arbitrary handlers and locals."""
    ctx, h0 = _ctx()
    g, l = fresh_dict('globals', StrK, AnyK), fresh_dict('locals', StrK, AnyK)
    do(ctx.extend_globals, g)
    do(ctx.extend_locals, l)
    w = snap(g)
    w.update(snap(l))
    w['event'] = event
    r = do(h.handle, event, ctx)
    same('the event is visible in the locals, the rest unchanged', do(ctx.get_locals_as_dict), w)
    t = RefK.unwrap(h)
    h1 = handlers(ctx)
    if once:
        if case(z3.Contains(h0, Unit(t))):
            _removed(ctx, h0, t)
        else:
            prove('other handlers stay registered', h1 == h0)
    else:
        prove('a handler that is not one-shot stays registered', h1 == h0)
    return r, ctx


BASE = [EH + 'BaseEventHandler.handle', CTX + 'extend_locals', CTX + 'unregister_event_handler']


@unit('C05', [EH + 'BaseEventHandler.matches', EH + 'BaseEventHandler.__init__'] + BASE)
def base_handler():
    once = choose(2) == 1
    m = fresh_bool('m')
    seen = []

    def matcher(e):
        seen.append(e)
        return m
    h = new(BaseEventHandler, matcher=matcher, handle_once=once) if once or choose(2) else \
        new(BaseEventHandler, matcher=matcher)
    ev_ = Event()
    r = do(h.matches, ev_)
    prove('the matcher decides', lift(r) == m.term)
    prove('the matcher is asked about the event', len(seen) == 1 and seen[0] is ev_)
    prove('handle_once is reported', h.handle_once is once)
    r, ctx = _handled(h, ev_, once, None)
    prove('a base handler returns nothing', r is None)


@unit('C05', [EH + 'EventHandler.handle', EH + 'EventHandler.__init__'] + BASE)
def entities_handler():
    once = choose(2) == 1
    E().path.refkind = EntK
    ents = [None, fresh_seq('entities', EntK), fresh_obj('entity', EntK)][choose(3)]
    t = ents.term if isinstance(ents, VList) else None
    h = new(EventHandler, matcher=lambda e: True, entities=ents, handle_once=once)
    r, ctx = _handled(h, Event(), once, None)
    if t is not None:
        prove('the entities are returned in order', rt.to_vlist(r).as_term(RefK) == t)
    else:
        prove('the entity is returned', r is ents)


@unit('C05', [OA + 'handle', OA + '__init__'] + BASE)
def action_handler():
    E().path.refkind = EntK
    once = choose(2) == 1
    a = new(Action)
    event = new(ExecutionComplete, action=a)
    shape = choose(4)
    calls = []
    ret = fresh_any('ret')
    if shape == 0:
        on = fresh_seq('entities', EntK)
        t = on.term
    elif shape == 1:
        on = fresh_obj('entity', EntK)
    elif shape == 2:
        on = VList([])
    else:
        def on(*args):
            calls.append(args)
            return ret
    h = new(OnExecutionComplete, target_action=a, on_completion=on, handle_once=once)
    r, ctx = _handled(h, event, once, None)
    if shape == 3:
        prove('the given function is called with event and context',
              len(calls) == 1 and len(calls[0]) == 2 and calls[0][0] is event and calls[0][1] is ctx)
        prove('its result is returned', AnyK.unwrap(r) == ret.term)
    elif shape == 0:
        prove('the given entities are returned in order', rt.to_vlist(r).as_term(RefK) == t)
    elif shape == 1:
        v = rt.to_vlist(r) if isinstance(r, VList) else VList([r])
        prove('the given entity is returned', v.as_term(RefK) == Unit(on.term))
    else:
        prove('no entity is returned', r is None or rt.to_vlist(r).as_term(RefK) == Empty(z3.SeqSort(IntS)))


class Act(SymObj):
    py_class = Action


ActK = ObjK('action', Act)


@unit('C05', [OA + '__init__', 'launch.event_handlers.on_execution_complete:OnExecutionComplete.__init__'])
def action_matching():
    a, b = fresh_obj('target', ActK), fresh_obj('source', ActK)
    other = choose(2)
    event = Event() if other else new(ExecutionComplete, action=b)
    how = choose(3)
    m = fresh_bool('m')
    asked = []

    def matcher(x):
        asked.append(x)
        return m
    h = new(OnExecutionComplete, target_action=[None, a, matcher][how], on_completion=lambda e, c: None)
    r = lift(do(h.matches, event))
    if other:
        prove('only events of the kind match', Not(r))
    elif how == 0:
        prove('any source matches', r)
    elif how == 1:
        prove('exactly the target action matches', r == (a.term == b.term))
    else:
        prove('the given function decides', r == m.term)
        prove('the source action is asked about', all(x is b for x in asked) and len(asked) == 1)


class IO(Event):
    pass


@unit('C05', ['launch.event_handlers.on_process_io:OnProcessIO.__init__', OA + 'handle'] + BASE)
def process_io():
    """Each stream reaches its own function only."""
    from launch.events.process import ProcessIO
    fd = choose(3)
    a = fresh_obj('proc', ActK)
    event = new(ProcessIO, action=a, name='p', cmd=['p'], cwd=None, env=None, pid=1, text=b'x', fd=fd)
    calls = []

    def mk(n):
        def f(e):
            calls.append((n, e))
            return n
        return f
    given = [choose(2) for _ in range(3)]
    h = new(OnProcessIO, on_stdin=mk(0) if given[0] else None, on_stdout=mk(1) if given[1] else None,
            on_stderr=mk(2) if given[2] else None)
    ctx, h0 = _ctx()
    r = do(h.handle, event, ctx)
    if given[fd]:
        prove('the function of the stream is called once with the event', len(calls) == 1 and calls[0][0] == fd and calls[0][1] is event)
        prove('its result is returned', r == fd)
    else:
        prove('no other function is called', not calls and r is None)


@unit('C05', ['launch.event_handlers.on_shutdown:OnShutdown.handle'] + BASE)
def on_shutdown():
    once = choose(2) == 1
    event = new(Shutdown)
    calls = []
    fn = choose(2)
    ents = fresh_seq('entities', RefK)
    t = ents.term

    def f(*a):
        calls.append(a)
        return ents
    h = new(OnShutdown, on_shutdown=f if fn else ents, handle_once=once)
    prove('shutdown events match', lift(do(h.matches, event)))
    prove('other events do not match', Not(lift(do(h.matches, Event()))))
    r, ctx = _handled(h, event, once, None)
    prove('the entities are returned in order', rt.to_vlist(r).as_term(RefK) == t)
    if fn:
        prove('the function gets event and context', len(calls) == 1 and calls[0][0] is event and calls[0][1] is ctx)


class Proc(launch.actions.ExecuteProcess):
    """Equal to every other process, though not the same."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


LH, LE, LP = 'launch.event_handlers.', 'launch.events.', 'launch.events.process.'


@unit('C05', [LH + 'on_process_start:OnProcessStart.__init__', LH + 'on_process_exit:OnProcessExit.__init__',
              LH + 'on_process_io:OnProcessIO.__init__', LH + 'on_execution_complete:OnExecutionComplete.__init__',
              LH + 'on_shutdown:OnShutdown.__init__', LH + 'on_include_launch_description:OnIncludeLaunchDescription.__init__',
              LH + 'event_named:event_named', LP[:-1].replace('.process', '.matchers') + ':matches_action', OA + '__init__',
              'launch.utilities.class_tools_impl:is_a', 'launch.utilities.class_tools_impl:is_a_subclass',
              'launch.utilities.class_tools_impl:isclassinstance', LP + 'running_process_event:RunningProcessEvent.__init__',
              LP + 'process_io:ProcessIO.__init__', LP + 'process_stdout:ProcessStdout.__init__', LP + 'process_stderr:ProcessStderr.__init__',
              LP + 'process_stdin:ProcessStdin.__init__', LP + 'process_exited:ProcessExited.__init__', LP + 'process_started:ProcessStarted.__init__',
              LE + 'shutdown:Shutdown.__init__', LE + 'timer_event:TimerEvent.__init__'],
      assumes=('actions are only compared: two that are equal to each other, though not the same, stand for any number',))
def kinds():
    """A handler of a kind matches the events of that kind from its target, and no others."""
    from launch.events.matchers import matches_action
    from launch.events.process import ProcessExited, ProcessIO, ProcessStarted, ProcessStderr, ProcessStdin, ProcessStdout, SignalProcess
    a, b = Proc(cmd=['x']), Proc(cmd=['x'])
    src = (a, b)[choose(2)]
    d = dict(action=src, name='p', cmd=['p'], cwd=None, env=None, pid=1)
    io = dict(d, text=b'x')

    def derived(cls):
        return type('Derived' + cls.__name__, (cls,), {}) if choose(2) else cls
    which = choose(11)
    cls, kw, fd = [(ProcessStarted, d, None), (ProcessExited, dict(d, returncode=0), None), (ProcessStdin, io, 0), (ProcessStdout, io, 1),
                   (ProcessStderr, io, 2), (ExecutionComplete, dict(action=src), None), (Shutdown, {}, None),
                   (launch.events.IncludeLaunchDescription, dict(launch_description=launch.LaunchDescription()), None), (Event, {}, None),
                   (launch.events.TimerEvent, dict(timer_action=src), None), (SignalProcess, dict(signal_number='SIGINT', process_matcher=lambda p: True), None)][which]
    event = new(derived(cls), **kw)
    if 'action' in kw:
        prove('the event is of its action', event.action is src)
    if fd is not None:
        prove('the stream of the output', (event.from_stdin, event.from_stdout, event.from_stderr) == (fd == 0, fd == 1, fd == 2))
        prove('the output', event.text == b'x')
    target = (None, a, lambda x: x is b)[choose(3)]
    from_target = target is None or (src is a if target is a else src is b)
    H = launch.event_handlers
    none = lambda *x: None      # noqa: E731
    k = choose(8)
    if k == 0:
        h, want = new(H.OnProcessStart, target_action=target, on_start=none), cls is ProcessStarted and from_target
    elif k == 1:
        h, want = new(H.OnProcessExit, target_action=target, on_exit=none), cls is ProcessExited and from_target
    elif k == 2:
        h, want = new(H.OnProcessIO, target_action=target, on_stdout=none), fd is not None and from_target
    elif k == 3:
        h, want = new(H.OnExecutionComplete, target_action=target, on_completion=none), cls is ExecutionComplete and from_target
    elif k == 4:
        h, want = new(H.OnShutdown, on_shutdown=none), cls is Shutdown
    elif k == 5:
        h, want = new(H.OnIncludeLaunchDescription), cls is launch.events.IncludeLaunchDescription
    elif k == 6:
        name = (cls.name, 'launch.events.process', cls.name + 'x', '')[choose(4)]
        r = lift(do(do(H.event_named, name), event))
        prove('an event is matched by its name', r == (name == event.name))
        return
    else:
        prove('an action is matched by itself', lift(do(do(matches_action, a), a)))
        other = launch.actions.ExecuteProcess(cmd=['x'])
        prove('and by no other', Not(lift(do(do(matches_action, other), launch.actions.ExecuteProcess(cmd=['x'])))))
        return
    prove('exactly the events of the kind and target match', lift(do(h.matches, event)) == z3.BoolVal(want),
          '%s, %s' % (type(h).__name__, type(event).__name__))
