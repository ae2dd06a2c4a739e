"""C17: shutdown escalates from SIGINT to SIGTERM to SIGKILL, and signals reach only their target."""
import signal

from .c15 import Awaitable
from .execlocal import *
from .execlocal import E, M, T, tm
import launch.events.process.process_matchers as PM
from launch.actions import EmitEvent, OpaqueFunction
from launch.events import Shutdown
from launch.events.process import ProcessStarted, ShutdownProcess, SignalProcess

ASSUMES = (
    'TimerAction: fires after its period unless cancelled first (C20); EmitEvent emits its event (C16)',
    'Python reads float(a) + float(b) as the sum of the numbers',
    'a transport delivers signals to its process, or raises ProcessLookupError if that is gone')
NUM = uf('number', StrS, z3.RealSort())


class Timer(Fake):
    """Contract of TimerAction: what it was made of and whether it was cancelled."""

    def __init__(self, *, period, actions, cancel_on_shutdown=True, **k):
        self.period, self.actions, self.cos, self.cancelled = period, list(actions), cancel_on_shutdown, 0
        E().path.__dict__.setdefault('timers', []).append(self)

    def cancel(self):
        self.cancelled += 1


class Expr(Fake):
    """Contract of PythonExpression: the value of the expanded text."""

    def __init__(self, expression, **k):
        self.parts = list(expression)


def seconds(period, a, b):
    """The number a period denotes."""
    if isinstance(period, (list, tuple, VList)):
        period = list(period)
        if len(period) == 1 and not isinstance(period[0], Expr):
            return NUM(StrK.unwrap(period[0]))
        if len(period) != 1:
            raise Unsupported('a period of several parts')
        period = period[0]
    if not isinstance(period, Expr):
        raise Unsupported('a period given as %r' % type(period))
    text = Concat(*[StrK.unwrap(x) for x in period.parts])
    for x, y in ((a, b), (b, a)):
        if E().entailed(text == Concat(StringVal('float('), x, StringVal(') + float('), y, StringVal(')')))[0] == 'proved':
            return NUM(x) + NUM(y)
    raise Unsupported('the meaning of an expression')


def world(**k):
    patch(M, 'TimerAction', Timer)
    patch(M, 'PythonExpression', Expr)
    a, b = fresh_str('sigterm_timeout'), fresh_str('sigkill_timeout')
    w = World(sigterm_timeout=a, sigkill_timeout=b, **k)
    w.a, w.b = a.term, b.term
    w.completed = do(w.action.get_asyncio_future)
    fs = [f for f in w.loop.futures if f is not w.completed]
    if len(fs) != 1:
        raise Unsupported('futures of the action')
    w.down = fs[0]
    return w


def flat(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple, VList)):
        return [z for y in x for z in flat(y)]
    return [x]


def perform(w, x):
    """Execute what a handler returned, except timers."""
    if isinstance(x, Timer):
        return [x]
    return [z for y in flat(do(x.execute, w.ctx)) for z in perform(w, y)]


def deliver(w, event):
    """The event is handled by whoever matches; returns the timers started."""
    w.ctx.locals_event(event)
    n = len(w.ctx.handlers)
    out = []
    for r in w.handle(event):
        for x in flat(r):
            out.extend(perform(w, x))
    return out


def targets(w, e, name):
    """The event is a signal for this process and no other."""
    ok = isinstance(e, SignalProcess) and do(getattr, e, 'signal_name') == name
    prove('the signal is %s' % name, ok, repr(e))
    if ok:
        class Other(Fake):
            process_details = w.action.process_details
        prove('the signal is for this process', do(e.process_matcher, w.action) is True)
        prove('the signal is for no other process', not do(e.process_matcher, Other()))


def escalation(w, timers, sigint, sent):
    """What has to happen when a running process is shut down."""
    # the sum of the two timeouts is only defined when they are numbers
    prove('SIGINT first, exactly if it is due', And(sigint, len(sent) == 1) if sent else Not(sigint))
    for e in sent:
        targets(w, e, 'SIGINT')
    prove('two timers', len(timers) == 2)
    if len(timers) != 2:
        return
    ts = [(seconds(t.period, w.a, w.b), t) for t in timers]
    first = [t for s, t in ts if E().entailed(s == NUM(w.a))[0] == 'proved']
    second = [t for s, t in ts if E().entailed(s == NUM(w.a) + NUM(w.b))[0] == 'proved']
    prove('after the SIGTERM timeout, and the SIGKILL timeout later', len(first) == 1 and len(second) == 1 and first != second)
    if len(first) != 1 or len(second) != 1:
        return
    for t, name in ((first[0], 'SIGTERM'), (second[0], 'SIGKILL')):
        prove('shutdown does not stop the escalation', t.cos is False)
        n = len(w.ctx.events)
        for x in t.actions:
            k, r = outcome(perform, w, x)
            prove('the escalation does not fail', k == 'ok', repr(r))
        es = w.ctx.events[n:]
        prove('one signal each', len(es) == 1)
        for e in es:
            targets(w, e, name)
        prove('the timer has not been cancelled', t.cancelled == 0)
    return first[0], second[0]


@unit('C17', [T + '__on_shutdown', T + '__on_shutdown_process_event', T + '_shutdown_process', T + '__get_shutdown_timer_actions',
              T + '__get_sigint_event', T + 'execute', 'launch.event_handlers.on_shutdown:OnShutdown.handle',
              'launch.event_handlers.on_process_start:OnProcessStart'],
      assumes=ASSUMES, budget=300)
def shutdown():
    """Shutdown at any moment of the life of a process."""
    w = world()
    moment = ['not started', 'starting again', 'running', 'finished', 'already'][choose(5)]
    tr = Transport()
    if moment != 'not started':
        w.action._subprocess_transport = tr
    if moment == 'starting again' and not set_private(w.action, '__respawning', True):
        raise Unsupported('fields of ExecuteLocal')
    if moment == 'finished':
        rt.setattr_(w.completed, 'isdone', True)
    if moment == 'already':
        rt.setattr_(w.down, 'isdone', True)
    sigint = z3.BoolVal(True)
    match = z3.BoolVal(True)
    if choose(2):
        due, non = fresh_bool('due_to_sigint'), fresh_bool('noninteractive')
        w.ctx.noninteractive = non
        event = new(Shutdown, reason='', due_to_sigint=due)
        sigint = Or(Not(tm(due)), tm(non))
    else:
        m = fresh_bool('matches')
        match = tm(m)
        asked = []

        def matcher(action):
            asked.append(action)
            return m
        event = new(ShutdownProcess, process_matcher=matcher)
    k, timers = outcome(deliver, w, event)
    prove('shutting down does not fail', k == 'ok', repr(timers))
    if k != 'ok':
        return
    if isinstance(event, ShutdownProcess):
        prove('the process is asked about', asked == [w.action])
    sent = list(w.ctx.events)
    if not E().branch(match):
        prove('a process that is not meant is left alone', not timers and not sent and Not(tm(w.down.isdone)) if moment != 'already' else not timers)
        return
    if moment in ('finished', 'already'):
        prove('there is nothing to stop', not timers and not sent)
        prove('no restart', tm(w.down.isdone) == True)       # noqa: E712
        return
    if moment == 'running':
        prove('no restart', tm(w.down.isdone) == True)       # noqa: E712
        escalation(w, timers, sigint, sent)
        return
    # it is postponed until the process has started
    prove('nothing to stop yet', not timers and not sent)
    prove('it is postponed', Not(tm(w.down.isdone)))
    w.action._subprocess_transport = tr
    if moment == 'starting again':
        set_private(w.action, '__respawning', False)
    k, timers = outcome(deliver, w, w.event(ProcessStarted))
    prove('shutting down does not fail', k == 'ok', repr(timers))
    if k != 'ok':
        return
    prove('no restart', tm(w.down.isdone) == True)           # noqa: E712
    escalation(w, timers, sigint, list(w.ctx.events))
    prove('signals are sent by events only', not tr.signals)


@unit('C17', [T + '__on_signal_process_event', 'launch.events.process.signal_process:SignalProcess.__init__',
              'launch.events.process.signal_process:SignalProcess.signal_name'], assumes=ASSUMES, budget=200)
def signals():
    """Any signal, for this process or another, at any moment."""
    w = world()
    tr = Transport()
    moment = ['not started', 'running', 'gone', 'finished'][choose(4)]
    if moment != 'not started':
        w.action._subprocess_transport = tr
    tr.gone = moment == 'gone'

    class P(Fake):
        pass

    class C(Fake):
        def done(self):
            return moment == 'finished'
    w.action._subprocess_protocol = P()
    w.action._subprocess_protocol.complete = C()
    s = ['SIGKILL', signal.SIGKILL, signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGHUP][choose(6)]
    m = fresh_bool('matches')
    asked = []

    def matcher(action):
        asked.append(action)
        return m
    event = new(SignalProcess, signal_number=s, process_matcher=matcher)
    k, r = outcome(deliver, w, event)
    prove('the process is asked about', asked == [w.action])
    mine = E().branch(tm(m))
    if not mine:
        prove('a signal for another process is ignored', k == 'ok' and not tr.signals)
    elif moment == 'not started':
        prove('a signal for a process that was not started is an error', k == 'raise' and isinstance(r, RuntimeError))
    else:
        prove('a signal does not fail', k == 'ok', repr(r))
    want = mine and moment == 'running'
    got = [getattr(x, 'name', x) for x in tr.signals]
    prove('the signal is sent, once, exactly if it is for this process and that is running',
          got == ([getattr(s, 'name', s)] if want else []), repr(got))
    prove('and nothing else happens', not w.ctx.events and not tr.closes and Not(tm(w.down.isdone)))


@unit('C17', [T + '__execute_process', T + '__cleanup', T + '__on_signal_process_event'], assumes=ASSUMES, budget=200)
def finish():
    """The process finishes at any moment of the escalation."""
    patch(M, 'TimerAction', Timer)
    patch(M, 'PythonExpression', Expr)
    w = Process()
    w.may_fail = False
    timers = []
    when = choose(2)

    def running():
        if not when:
            return
        w.ctx.locals_event(None)
        [do(e.execute, w.ctx) for r in w.handle(new(Shutdown, reason='', due_to_sigint=False))
                for e in flat(r) if not isinstance(e, Timer) or timers.append(e)]
        prove('signals are sent by events only', not w.transport.signals)
        w.down = True
    w.while_running = running
    k, r = outcome(w.run)
    if w.failed:
        return
    prove('the run does not fail', k == 'ok', repr(r))
    if len(w.loop.tasks) > 1:
        return
    prove('there are timers exactly after shutdown', len(timers) == (2 if when else 0))
    prove('both are cancelled when the process has finished', all(t.cancelled > 0 for t in timers))
    prove('the transport is closed', w.transport.closes >= 1)
    w.ctx.locals_event(None)
    event = new(SignalProcess, signal_number='SIGKILL', process_matcher=lambda a: True)
    k, r = outcome(deliver, w, event)
    prove('a process that has finished gets no signal', k == 'ok' and not w.transport.signals, repr(r))


@unit('C17', ['launch.events.process.process_matchers:' + f for f in ('matches_pid', 'matches_name', 'matches_executable')], budget=100)
def matchers():
    """Which processes the matchers designate."""
    class A(Fake):
        pass
    a = A()
    pid, name, cmd = fresh_int('pid'), fresh_str('name'), fresh_str('command')
    have = choose(3)
    a.process_details = [None, {'name': name, 'cmd': [cmd, 'x']}, {'name': name, 'cmd': [cmd, 'x'], 'pid': pid}][have]
    wp, wn, we = fresh_int('wanted pid'), fresh_str('wanted name'), fresh_str('wanted executable')
    for what, m, want in (('the pid', do(PM.matches_pid, wp), tm(pid) == tm(wp) if have == 2 else z3.BoolVal(False)),
                          ('the name', do(PM.matches_name, wn), tm(name) == tm(wn) if have else z3.BoolVal(False)),
                          ('the end of the command', do(PM.matches_executable, we),
                           z3.SuffixOf(tm(we), tm(cmd)) if have else z3.BoolVal(False))):
        k, r = outcome(do, m, a)
        prove('matching by %s does not fail' % what, k == 'ok', repr(r))
        if k == 'ok':
            prove('processes are designated by %s' % what, tm(BoolK.wrap(tm(r)) if not isinstance(r, bool) else r) == want)
