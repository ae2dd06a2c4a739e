from launch import Action, Event
from launch.actions import RegisterEventHandler, UnregisterEventHandler, LogInfo
from launch.event_handler import BaseEventHandler, EventHandler
from launch.event_handlers import (OnExecutionComplete, OnProcessExit, OnProcessIO, OnProcessStart, OnShutdown,
                                   OnIncludeLaunchDescription)
from launch.events import ExecutionComplete, Shutdown, IncludeLaunchDescription
from launch.events.process import ProcessExited, ProcessIO, ProcessStarted
from launch.actions import ExecuteProcess
from .common import *

RULE = ('random registrations, removals and handled events on a real context, against a reference list; and every '
        'provided handler kind with every form of entities; non-trivial: distinct histories')


class Ev(Event):
    def __init__(self, n):
        self.n = n


def run(h):
    r = h.rng

    def history(spec, ops):
        def f():
            ctx = LaunchContext()
            log = []
            hs = []
            for i, s in enumerate(spec):
                def matcher(e, i=i, s=s):
                    log.append(i)
                    return isinstance(e, Ev) and e.n in s['on']
                if s['kind'] == 'base':
                    hs.append(BaseEventHandler(matcher=matcher, handle_once=s['once']))
                else:
                    hs.append(EventHandler(matcher=matcher, handle_once=s['once'], entities=s['ents']))
            ref = []
            used = set()
            loc = {}
            for op, k in ops:
                what = '%s %s' % (op, k)
                if op == 'reg':
                    ctx.register_event_handler(hs[k % len(hs)])
                    ref.insert(0, k % len(hs))
                elif op == 'regact':
                    RegisterEventHandler(hs[k % len(hs)]).visit(ctx)
                    ref.insert(0, k % len(hs))
                elif op == 'append':
                    ctx.register_event_handler(hs[k % len(hs)], append=True)
                    ref.append(k % len(hs))
                elif op in ('unreg', 'unregact'):
                    k %= len(hs)

                    def g():
                        if op == 'unreg':
                            ctx.unregister_event_handler(hs[k])
                        else:
                            UnregisterEventHandler(hs[k]).visit(ctx)
                    if k in ref:
                        g()
                        ref.remove(k)
                    else:
                        raises(ValueError, g, what)
                elif op == 'handle':
                    k %= len(hs)
                    if spec[k]['once'] and k in used and k not in ref:
                        continue        # a one-shot handler is not to be used again
                    used.add(k)
                    e = Ev(1)
                    got = hs[k].handle(e, ctx)
                    eq(got, None if spec[k]['kind'] == 'base' else spec[k]['ents'], 'returned entities')
                    eq(ctx.locals.event is e, True, 'event in the locals')
                    if spec[k]['once'] and k in ref:
                        ref.remove(k)
                elif op == 'local':
                    ctx.extend_locals({'x%d' % k: k})
                    loc['x%d' % k] = k
                for n in range(3):
                    eq(ctx.would_handle_event(Ev(n)), any(n in spec[i]['on'] for i in ref), 'would handle %d after %s' % (n, what))
                # the order is the order in which a never-matching event is offered
                del log[:]
                ctx.would_handle_event(Ev(99))
                eq(log, ref, 'registered handlers, in order, after ' + what)
            got = {a: b for a, b in ctx.get_locals_as_dict().items() if a != 'event'}
            eq(got, loc, 'other locals')
        h.case('history', dict(spec=[{k: v for k, v in s.items() if k != 'ents'} for s in spec], ops=ops), f)

    for _ in range(h.n(300)):
        n = r.randint(1, 4)
        spec = [dict(kind=r.choice(['base', 'ents']), once=r.random() < .4, on=r.sample([0, 1, 2], r.randint(0, 3)),
                     ents=r.choice([None, LogInfo(msg='x'), [LogInfo(msg='a'), LogInfo(msg='b')], [],
                                     [(x := LogInfo(msg='x')), LogInfo(msg='y'), x]])) for _ in range(n)]
        history(spec, [(r.choice(['reg', 'reg', 'append', 'append', 'regact', 'unreg', 'unregact', 'handle', 'local']),
                        r.randrange(9)) for _ in range(r.randint(1, 14))])

    a, b = ExecuteProcess(cmd=['true']), ExecuteProcess(cmd=['true'])
    kw = dict(name='n', cmd=['x'], cwd=None, env=None, pid=3)

    kinds = [
        (OnExecutionComplete, 'on_completion', lambda x: ExecutionComplete(action=x)),
        (OnProcessExit, 'on_exit', lambda x: ProcessExited(action=x, returncode=0, **kw)),
        (OnProcessStart, 'on_start', lambda x: ProcessStarted(action=x, **kw)),
        (OnShutdown, 'on_shutdown', lambda x: Shutdown())]
    e1, e2 = LogInfo(msg='1'), LogInfo(msg='2')
    forms = [('one', e1, [e1]), ('list', [e1, e2], [e1, e2]), ('tuple', (e2, e1), [e2, e1]), ('repeated', [e1, e2, e1], [e1, e2, e1]), ('empty', [], []),
             ('generator', lambda: (x for x in [e1, e2]), [e1, e2]), ('none', lambda: None, [])]
    for cls, key, mk in kinds:
        for fname, form, want in forms:
            for fn in (False, True):
                for once in (False, True):
                    if not fn and fname == 'none':
                        continue

                    def f():
                        val = form() if fname in ('generator', 'none') else form
                        calls = []

                        def func(event, ctx):
                            calls.append((event, ctx))
                            return val
                        ctx = LaunchContext()
                        ctx.extend_locals({'other': 1})
                        hd = cls(**{key: func if fn else val, 'handle_once': once})
                        ctx.register_event_handler(hd)
                        e = mk(a)
                        eq(hd.matches(e), True, 'matches its event')
                        eq(hd.matches(Event()), False, 'matches other events')
                        eq(ctx.would_handle_event(e), True, 'would handle')
                        for i in range(1 if once else 2):
                            got = hd.handle(e, ctx)
                            got = [] if got is None else [got] if isinstance(got, Action) else list(got)
                            if i == 0 or fname != 'generator':
                                eq(got, want, 'entities')
                            eq(dict(ctx.get_locals_as_dict()), {'other': 1, 'event': e}, 'locals')
                            eq(ctx.would_handle_event(e), not once, 'still registered')
                            if i and fname == 'generator':
                                break
                        if fn:
                            eq(all(c[0] is e and c[1] is ctx for c in calls) and len(calls) == (1 if once else 2), True, 'calls of the function')
                        hd.describe()
                    h.case('handler kinds', (cls.__name__, fname, fn, once), f)

    for cls, key, mk in kinds[:3]:
        def f():
            hd = cls(target_action=a, **{key: lambda e, c: None})
            eq((hd.matches(mk(a)), hd.matches(mk(b)), hd.matches(Shutdown())), (True, False, False), 'target action')
            hd = cls(target_action=lambda x: x is b, **{key: lambda e, c: None})
            eq((hd.matches(mk(a)), hd.matches(mk(b)), hd.matches(Shutdown())), (False, True, False), 'target function')
        h.case('targets', cls.__name__, f)

    for fd in range(3):
        for given in range(8):
            def f():
                calls = []
                fs = {n: (lambda e, n=n: calls.append((n, e)) or [n]) for i, n in
                      enumerate(['on_stdin', 'on_stdout', 'on_stderr']) if given >> i & 1}
                hd = OnProcessIO(target_action=a, **fs)
                e = ProcessIO(action=a, text=b'x', fd=fd, **kw)
                ctx = LaunchContext()
                got = hd.handle(e, ctx)
                n = ['on_stdin', 'on_stdout', 'on_stderr'][fd]
                eq(got, [n] if n in fs else None, 'result')
                eq(calls, [(n, e)] if n in fs else [], 'calls')
            h.case('process io', (fd, given), f)

    def f():
        ld = LaunchDescription([e1])
        ctx = LaunchContext()
        hd = OnIncludeLaunchDescription()
        ev = IncludeLaunchDescription(ld)
        eq((hd.matches(ev), hd.matches(Shutdown())), (True, False), 'include matches')
        got = hd.handle(ev, ctx)
        eq(list(got.visit(ctx)), [ld], 'included description')
    h.case('include event', None, f)

    # every kind of handler and every kind of event
    from launch.event_handlers import event_named
    from launch.events import TimerEvent
    from launch.events.matchers import matches_action
    from launch.events.process import ProcessStderr, ProcessStdin, ProcessStdout

    class Same(ExecuteProcess):
        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1
    p, q = Same(cmd=['x']), Same(cmd=['x'])
    none = lambda *a: None      # noqa: E731
    kinds = [(ProcessStarted, kw), (ProcessExited, dict(kw, returncode=0)), (ProcessStdin, dict(kw, text=b'x')),
             (ProcessStdout, dict(kw, text=b'x')), (ProcessStderr, dict(kw, text=b'x')), (ExecutionComplete, {}), (Shutdown, None),
             (IncludeLaunchDescription, None), (Event, None), (TimerEvent, None)]
    for cls, k in kinds:
        for sub in (False, True):
            for src in (p, q):
                for target in (None, p, lambda x: x is q):
                    def f():
                        c = type('Sub' + cls.__name__, (cls,), {}) if sub else cls
                        if k is not None:
                            ev = c(action=src, **k)
                        else:
                            ev = c(LaunchDescription()) if cls is IncludeLaunchDescription else c(timer_action=src) if cls is TimerEvent else c()
                        mine = target is None or (src is p if target is p else src is q)
                        io = cls in (ProcessStdin, ProcessStdout, ProcessStderr)
                        eq([hd.matches(ev) for hd in (
                            OnProcessStart(target_action=target, on_start=none), OnProcessExit(target_action=target, on_exit=none),
                            OnProcessIO(target_action=target), OnExecutionComplete(target_action=target, on_completion=none),
                            OnShutdown(on_shutdown=none), OnIncludeLaunchDescription())],
                           [cls is ProcessStarted and mine, cls is ProcessExited and mine, io and mine, cls is ExecutionComplete and mine,
                            cls is Shutdown, cls is IncludeLaunchDescription], 'kinds of handlers matching a %s' % c.__name__)
                        eq([event_named(n)(ev) for n in (ev.name, ev.name + 'x', ev.name[:-1], '')], [True, False, False, False], 'name')
                        if io:
                            eq((ev.from_stdin, ev.from_stdout, ev.from_stderr, ev.text),
                               (cls is ProcessStdin, cls is ProcessStdout, cls is ProcessStderr, b'x'), 'stream')
                    h.case('kinds', (cls.__name__, sub, src is p, callable(target)), f)

    def f():
        x, y = LogInfo(msg='x'), LogInfo(msg='x')
        eq((matches_action(x)(x), matches_action(x)(y)), (True, False), 'matches_action')
    h.case('matches action', None, f)
