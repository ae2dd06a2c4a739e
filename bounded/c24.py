import threading
import time
from types import SimpleNamespace

import launch
from launch.events.process import ProcessExited, ProcessIO, ProcessStarted  # noqa: F401
from launch_testing.asserts import assertExitCodes, NO_CMD_ARGS
from launch_testing.io_handler import ActiveIoHandler, IoHandler
from launch_testing.proc_info_handler import ActiveProcInfoHandler, ProcInfoHandler
from launch_testing.tools.process import launch_process, ProcessProxy
from launch_testing.util import NoMatchingProcessException, resolveProcesses
from .c23 import proc
from .common import *

RULE = ('up to 5 recorded processes with overlapping names and arguments against look-ups by nothing, action, part of a name and '
        'arguments, strict or not; exit codes, running processes and repeated events; output cut into chunks over 3 processes; '
        'one or two threads waiting for shutdown, start or output, with and without a time limit; one process of every kind '
        'started by launch_process; non-trivial: distinct (record, key) pairs')
NAMES = ['talker', 'talk', 'listener-1', 'alk', 'x']
ARGS = ['-v', '--a', '-', '1']


def event(cls, action, code=None):
    d = action.process_details
    k = dict(action=action, name=d['name'], cmd=d['cmd'], cwd=None, env=None, pid=1)
    if cls is ProcessExited:
        k['returncode'] = code
    return cls(**k)


def io_of(action, text, err=False):
    d = action.process_details
    return ProcessIO(text=text, fd=2 if err else 1, action=action, name=d['name'], cmd=d['cmd'], cwd=None, env=None, pid=1)


def designated(procs, key, args):
    if key is None:
        return list(procs)
    if not isinstance(key, str):
        return [p for p in procs if p is key]
    r = []
    for p in procs:
        given = p.process_details['cmd'][1:]
        if key not in p.process_details['name']:
            continue
        if args is NO_CMD_ARGS:
            ok = given == []
        elif isinstance(args, str):
            ok = args in given
        else:
            ok = args is None or all(a in given for a in args)
        if ok:
            r.append(p)
    return r


def look(info, key, args, strict):
    try:
        return ('ok', resolveProcesses(info, process=key, cmd_args=args, strict_proc_matching=strict))
    except NoMatchingProcessException:
        return ('none', None)
    except Exception as x:
        if type(x) is not Exception:
            raise
        return ('many', None)


def run(h):
    r = h.rng

    def some(n):
        return [proc(r.choice(NAMES), *[r.choice(ARGS) for _ in range(r.randint(0, 2))]) for _ in range(n)]

    def lookup(ps, codes, key, args, strict, allowed):
        def f():
            infos = ProcInfoHandler(), ActiveProcInfoHandler()
            last = {}
            for p, cs in zip(ps, codes):
                for c in cs:
                    e = event(ProcessStarted, p) if c is None else event(ProcessExited, p, c)
                    last[p] = e
                    for i in infos:
                        i.append(e)
            known = [p for p, cs in zip(ps, codes) if cs]
            want = designated(known, key, args)
            for i in infos:
                eq(list(i.processes()), known, 'processes')
                eq(list(i.process_names()), [p.process_details['name'] for p in known], 'names')
                eq(list(i), [last[p] for p in known], 'events')
                eq([i[p] for p in known], [last[p] for p in known], 'event of the process')
                for n in NAMES:
                    named = [p for p in known if n in p.process_details['name']]
                    if named:
                        eq(i[n], last[named[0]], 'event of the name')
                    else:
                        raises(KeyError, lambda: i[n], 'an unknown name')
                k, got = look(i, key, args, strict)
                if not want:
                    eq(k, 'none', 'no process is designated')
                elif strict and isinstance(key, str) and len(want) > 1:
                    eq(k, 'many', 'several processes are designated')
                else:
                    eq((k, got), ('ok', want), 'designated processes')
                fine = k == 'ok' and all(isinstance(last[p], ProcessExited) and last[p].returncode in allowed for p in want)

                def check():
                    assertExitCodes(i, list(allowed), key, args, strict_proc_matching=strict)
                if fine:
                    check()
                elif k == 'ok':
                    raises(AssertionError, check, 'exit codes')
                else:
                    raises(NoMatchingProcessException if k == 'none' else Exception, check, 'look-up')
        h.case('look-up', (tuple((p.process_details['name'], *p.process_details['cmd']) for p in ps), tuple(map(tuple, codes)),
                           key if key is None or isinstance(key, str) else ('proc', ps.index(key) if key in ps else -1),
                           repr(args) if args is not NO_CMD_ARGS else 'none', strict, tuple(allowed)), f)
    for _ in range(h.n(700)):
        ps = some(r.randint(0, 5))
        keys = [None, *NAMES, '', 'nobody', *ps, *some(1)]
        args = r.choice([None, None, NO_CMD_ARGS, '-v', '', [], ['-v'], ['-', '1'], ['1', '1'], ('--a',)])
        allowed = r.choice([[0], [0], [0, 1], [], [-2, 130], [1]])
        codes = [r.choice([[], [None], [None, 0], [None, 0], [None, 0], [0, 1], [None, 1], [None, 1, None], [-2], [True], [130]])
                 for _ in ps]
        lookup(ps, codes, r.choice(keys), args, r.random() < .5, allowed)

    def waiting(n):
        def f():
            io, got = ActiveIoHandler(), []
            a = proc('a')

            def wait(text):
                try:
                    io.assertWaitFor(text, timeout=6, stream='stdout')
                    got.append((text, time.monotonic()))
                except AssertionError:
                    pass
            ts = [threading.Thread(target=wait, args=(t,), daemon=True) for t in ['other'] + ['hello'] * n]
            for t in ts:
                t.start()
                time.sleep(0.05)
            start = time.monotonic()
            io.append(io_of(a, b'hello'))
            for t in ts[1:]:
                t.join(10)
            eq(len(got), n, 'threads told of the output')
            if any(t - start > 3 for _, t in got):
                raise AssertionError('told too late: %r' % got)
            io.append(io_of(a, b'other'))
            ts[0].join(10)
            eq(len(got), n + 1, 'threads told of the output')
        h.case('waiting', n, f)
    for n in (1, 2, 3):
        waiting(n)

    def defaults():
        i = ProcInfoHandler()
        a, b = proc('a'), proc('b', '-v')
        i.append(event(ProcessExited, a, 0))
        assertExitCodes(i)
        i.append(event(ProcessStarted, b))
        raises(AssertionError, lambda: assertExitCodes(i), 'still running')
        i.append(event(ProcessExited, b, 1))
        raises(AssertionError, lambda: assertExitCodes(i), 'a process failed')
        assertExitCodes(i, process='a')
        assertExitCodes(i, (x for x in [0, 1]))
        raises(AssertionError, lambda: assertExitCodes(i, ['0']), 'not a number')
        raises(AssertionError, lambda: assertExitCodes(i, [0, '0'], process='a'), 'not all are numbers')
        raises(AssertionError, lambda: assertExitCodes(i, [None, 0], process='a'), 'not all are numbers')
        raises(AssertionError, lambda: assertExitCodes(i, process='b'), 'a process failed')
        e = ProcessStarted(action=a, name='n', cmd=['c'], cwd='/d', env={'A': 'b'}, pid=7)
        eq((e.action, e.process_name, e.cmd, e.cwd, e.env, e.pid), (a, 'n', ['c'], '/d', {'A': 'b'}, 7), 'what an event tells')
        for key in (5, b'a', ['a'], object()):
            raises(TypeError, lambda: resolveProcesses(i, process=key), 'a wrong key')
        c = launch.actions.ExecuteProcess(cmd=['c', launch.substitutions.LaunchConfiguration('z')])
        for x in (c, launch.actions.ExecuteProcess(cmd=['c', 'd'])):
            eq(look(i, x, None, True)[0], 'none', 'a process that was never launched')
    h.case('defaults', (), defaults)

    def captured(names, chunks, tracked):
        def f():
            ps = [proc(n) for n in names]
            for i in (IoHandler(), ActiveIoHandler()):
                evs = []
                for t in tracked:
                    i.track(t)
                for k, t, err in chunks:
                    e = io_of(ps[k], t, err)
                    evs.append(e)
                    i.append(e)
                eq(list(i), evs, 'all events')
                seen = []
                for e in evs:
                    if e.process_name not in seen:
                        seen.append(e.process_name)
                eq(sorted(i.process_names()), sorted({*tracked, *seen}), 'names')
                wrote = list(i.processes())
                eq(sorted(p.process_details['name'] for p in wrote), sorted(seen), 'processes')
                for k, p in enumerate(ps):
                    mine = [e for e in evs if e.process_name == names[k]]
                    if names[k] in seen or names[k] in tracked:
                        eq(i[names[k]], mine, 'events of the name')
                        eq(i[p], mine, 'events of the process')
                        i[p].append(None)
                        eq(i[p], mine, 'recorded events')
                    else:
                        raises(KeyError, lambda: i[p], 'an unknown process')
                        raises(KeyError, lambda: i[names[k]], 'an unknown name')
        h.case('captured', (tuple(names), tuple(chunks), tuple(tracked)), f)
    for _ in range(h.n(150)):
        names = r.sample(NAMES, 3)
        captured(names, [(r.randrange(3), r.choice([b'', b'a', b'b\n', b'\xc3', b'\xa9']), r.random() < .3)
                         for _ in range(r.randint(0, 8))], r.sample(names, r.randint(0, 2)))

    def proxy(chunks, filt):
        def f():
            p, q = proc('p'), proc('q')
            info, out = ActiveProcInfoHandler(), ActiveIoHandler()
            x = ProcessProxy(p, info, out, output_filter=(lambda t: t.upper()) if filt else None)
            eq((x.running, x.terminated), (False, False), 'before it starts')
            eq(x.target_process_action, p)
            out.track('p')
            info.append(event(ProcessStarted, p))
            eq((x.running, x.terminated), (True, False), 'while it runs')
            texts = {False: b'', True: b''}
            both = []
            for mine, t, err in chunks:
                out.append(io_of(p if mine else q, t.encode(), err))
                if mine:
                    texts[err] += t.encode()
                    both.append(t)
            g = str.upper if filt else str
            eq(x.stdout, g(texts[False].decode()), 'stdout')
            eq(x.stderr, g(texts[True].decode()), 'stderr')
            eq(x.output, g(''.join(both)), 'output')
            seen = []
            w = x.wait_for_output(lambda t: seen.append(t) or 'a' in t.lower(), timeout=.01)
            eq(bool(w), 'a' in ''.join(both), 'the output satisfies the condition')
            eq(set(seen), {x.output}, 'the condition is given the output')
            eq(bool(x.wait_for_output(timeout=0)), True, 'any output')
            raises(TypeError, lambda: x.wait_for_output(5), 'a wrong condition')
            eq(bool(x.wait_for_shutdown(timeout=.01)), False, 'not shut down')
            info.append(event(ProcessExited, p, 7))
            eq((x.running, x.terminated, x.exit_code), (False, True, 7), 'after it exited')
            eq(bool(x.wait_for_shutdown(timeout=0)), True, 'shut down')
            eq(bool(x.wait_for_shutdown()), True, 'shut down')
        h.case('proxy', (tuple(chunks), filt), f)
    for _ in range(h.n(25)):
        proxy([(r.random() < .7, r.choice(['a', 'b\n', 'é', '']), r.random() < .4) for _ in range(r.randint(0, 5))], r.random() < .5)

    def waiting(what, n, order, limit):
        """n threads wait; the event they wait for is the last of the order."""
        def f():
            p, q = proc('one', '-v'), proc('two')
            info, out = ActiveProcInfoHandler(), ActiveIoHandler()
            x = ProcessProxy(p, info, out)
            if what == 'output':
                info.append(event(ProcessStarted, p))
                out.track('one')
            wait = {
                'shutdown': lambda t: info.assertWaitForShutdown(p, timeout=t),
                'shutdown name': lambda t: info.assertWaitForShutdown('one', ['-v'], timeout=t),
                'start': lambda t: info.assertWaitForStartup('one', timeout=t),
                'text': lambda t: out.assertWaitFor('hello', process='one', timeout=t, stream='stdout'),
                'proxy': lambda t: x.wait_for_shutdown(t),
                'output': lambda t: x.wait_for_output(lambda o: 'hello' in o, t),
            }[what]
            got = []

            def waiter(t):
                try:
                    v = wait(t)
                    got.append('ok' if v is None or v else 'timeout')
                except (AssertionError, NoMatchingProcessException):
                    got.append('timeout')
            ts = [threading.Thread(target=waiter, args=(limit,), daemon=True) for _ in range(n)]
            for t in ts:
                t.start()
            time.sleep(.02)
            eq(got, [], 'nobody returns before the event')
            for o in order:
                if o == 's':
                    info.append(event(ProcessStarted, p))
                elif o == 'S':
                    info.append(event(ProcessStarted, q))
                elif o == 'x':
                    info.append(event(ProcessExited, p, 0))
                elif o == 'X':
                    info.append(event(ProcessExited, q, 0))
                else:
                    out.append(io_of(q if o.startswith('!') else p, o.lstrip('!').encode()))
            for t in ts:
                t.join(3)
            eq(got, ['ok'] * n, 'every waiter sees the event')
        h.case('waiting', (what, n, tuple(order), limit), f)
    for n in (1, 2, 3):
        for limit in (5, None):
            for what, order in (('shutdown', 'sSXx'), ('shutdown name', 'SsXx'), ('start', 'SXs'), ('proxy', 'sXx'),
                                ('text', ['!hello', 'he', 'llo']), ('output', ['!hello', 'hel', 'lo'])):
                if what == 'shutdown' and limit is None:
                    order = 'x'
                waiting(what, n, order, limit)

    def never(what):
        def f():
            p, q = proc('one'), proc('two')
            info, out = ActiveProcInfoHandler(), ActiveIoHandler()
            for e in (event(ProcessStarted, p), event(ProcessStarted, q), event(ProcessExited, q, 0)):
                info.append(e)
            out.append(io_of(p, b'hel'))
            out.append(io_of(q, b'hello'))
            f = {
                'shutdown': lambda: info.assertWaitForShutdown('one', timeout=.05),
                'start': lambda: info.assertWaitForStartup('three', timeout=.05),
                'text': lambda: out.assertWaitFor('hello', process=p, timeout=.05, stream='stdout'),
                'stream': lambda: out.assertWaitFor('hello', process=q, timeout=.05),
            }[what]
            raises(AssertionError, f, 'the event never happened')
            eq(out.waitFor('hello', process=p, timeout=.01, stream='stdout'), False, 'not found')
            raises(NoMatchingProcessException, lambda: out.waitFor('hello', process='three', timeout=.01, stream='stdout'), 'unknown')
            eq(out.waitFor('hello', process=q, timeout=.01, stream='stdout'), True, 'found')
            info.assertWaitForShutdown('two', timeout=0)
            info.assertWaitForStartup('two', timeout=0)
            info.assertWaitForStartup('one', timeout=0)
        h.case('never', (what,), f)
    for what in ('shutdown', 'start', 'text', 'stream'):
        never(what)

    def threads():
        """Reading while other threads record."""
        p = [proc('p%d' % i) for i in range(4)]
        out, info = ActiveIoHandler(), ActiveProcInfoHandler()

        def rec(k):
            for i in range(200):
                out.append(io_of(p[k], b'%d' % i))
                info.append(event(ProcessStarted, p[k]) if i % 2 == 0 else event(ProcessExited, p[k], i))
        ts = [threading.Thread(target=rec, args=(k,)) for k in range(4)]
        for t in ts:
            t.start()
        while any(t.is_alive() for t in ts):
            list(out)
            out.processes()
            out.process_names()
            list(info)
            info.processes()
            info.process_names()
        for k in range(4):
            eq([e.text for e in out[p[k]]], [b'%d' % i for i in range(200)], 'events of a process')
            eq(info[p[k]].returncode, 199)
        eq(len(list(out)), 800, 'all events')
    h.case('threads', (), threads)

    def launched(cmd, code, text, stop):
        def f():
            info, out = ActiveProcInfoHandler(), ActiveIoHandler()
            ls = launch.LaunchService(noninteractive=True)
            ls.include_launch_description(launch.LaunchDescription([
                launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessStart(on_start=lambda e, c: (
                    info.append(e), out.track(e.process_name)) and None)),
                launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessExit(on_exit=lambda e, c: info.append(e))),
                launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessIO(
                    on_stdout=out.append, on_stderr=out.append)),
                launch.actions.OpaqueFunction(function=lambda c: started.set()),
                keep]))

            def inside():
                assert started.wait(10)
                try:
                    a = launch.actions.ExecuteProcess(cmd=cmd)
                    with launch_process(ls, a, info, out) as x:
                        info.assertWaitForStartup(a, timeout=10)
                        if text is not None:
                            eq(bool(x.wait_for_output(lambda o: text in o, timeout=10)), True, 'the output')
                        if not stop:
                            eq(x.wait_for_shutdown(10), True, 'it exited by itself')
                    eq(x.wait_for_shutdown(10), True, 'it is shut down at the end')
                    eq(x.exit_code, code, 'exit code')
                    if text is not None:
                        eq(x.stdout, text, 'stdout')
                    done.append(True)
                except BaseException as exc:
                    done.append(exc)
                finally:
                    ls.shutdown()
            t = threading.Thread(target=inside, daemon=True)
            t.start()
            ls.run()
            t.join(5)
            if done != [True]:
                raise done[0] if done else AssertionError('nothing happened')
        started, done = threading.Event(), []
        keep = launch.actions.TimerAction(period=60., actions=[])
        h.case('launched', (tuple(cmd), code, stop), f)
    launched(['sh', '-c', 'echo one; echo two; exec sleep 60'], -2, 'one\ntwo\n', True)
    launched(['sh', '-c', 'exit 7'], 7, None, False)
