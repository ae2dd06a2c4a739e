"""Runs of a real launch service in virtual time with scripted processes (C17, C18, C19)."""
import asyncio
import logging
import random
import signal

import launch.actions.execute_local as el
import launch.logging
from launch import EventHandler
from launch.actions import ExecuteLocal, ExecuteProcess, RegisterEventHandler
from launch.descriptions import Executable
from launch.events import Shutdown, matches_action
from launch.events.process import (ProcessExited, ProcessIO, ProcessStarted, ShutdownProcess, SignalProcess, matches_name,
                                   matches_pid)
from .common import *

RULE = ('runs of a launch service in virtual time with scripted processes: start latency, failures to start, output in arbitrary chunks on '
        'two streams (also left in the tty at exit), exits, reactions to signals, respawn, delays and limits, shutdown of the launch or of '
        'one process at any moment, signals; compared with a simulation; non-trivial: distinct scripts')
NUM = {'SIGINT': 2, 'SIGTERM': 15, 'SIGKILL': 9, 'SIGUSR1': 10}


class Run:
    """One run of a scripted process."""

    def __init__(self, dur=50, rc=0, chunks=(), left=(), fail=False, react=None):
        self.dur, self.rc, self.chunks, self.left, self.fail = dur, rc, chunks, left, fail
        self.react = {'SIGINT': 3, 'SIGTERM': 3, 'SIGKILL': 0} if react is None else dict(react, SIGKILL=0)

    def __repr__(self):
        return 'Run(%r)' % self.__dict__


class Proc:
    def __init__(self, runs, latency=2, respawn=False, delay=None, max_retries=-1, a=20, b=20, cached=False, tty=False, config=None,
                 kind='local', shell=None, log_cmd=None):
        self.shell, self.log_cmd = shell, log_cmd
        self.runs, self.latency, self.respawn, self.delay, self.max_retries = runs, latency, respawn, delay, max_retries
        self.a, self.b, self.cached, self.tty, self.config, self.kind = a, b, cached, tty, config, kind

    def __repr__(self):
        return 'Proc(%r)' % self.__dict__

    def run(self, i):
        return self.runs[min(i, len(self.runs) - 1)]


class Transport:
    def __init__(self, world, i, n, protocol, run):
        self.world, self.i, self.protocol, self.run = world, i, protocol, run
        self.pid, self.rc, self.exited, self.stop = 1000 * (i + 1) + n, None, False, None

    def get_pid(self):
        return self.pid

    def get_pipe_transport(self, fd):
        return object()

    def get_returncode(self):
        return self.rc

    def close(self):
        pass

    def start(self, tty):
        w, p = self.world, self.protocol
        self.tty = tty
        for t, err, data in self.run.chunks:
            w.later(t, self.data, err, data)
        if self.run.dur is not None:
            self.stop = w.later(self.run.dur, self.exit, self.run.rc)

    def data(self, err, data):
        if not self.exited:
            self.receive(err, data)

    def receive(self, err, data):
        if self.tty:
            (self.protocol.on_stderr_received if err else self.protocol.on_stdout_received)(data)
        else:
            self.protocol.pipe_data_received(2 if err else 1, data)

    def exit(self, rc):
        if self.exited:
            return
        self.exited, self.rc = True, rc
        left = list(self.run.left)

        def more():
            # the tty is read piecemeal, once in each iteration of the loop
            if left:
                self.receive(*left.pop(0))
                self.world.loop.call_soon(more)
        if not self.tty:
            # pipes are read before the exit is noticed
            while left:
                self.receive(*left.pop(0))
        self.protocol.process_exited()
        more()

    def send_signal(self, s):
        name = s if isinstance(s, str) else signal.Signals(s).name
        self.world.signals.append((self.world.now(), self.i, self.pid, name))
        if self.exited:
            raise ProcessLookupError()
        d = self.run.react.get(name)
        if d == 0:
            self.exit(-NUM[name])
        elif d is not None:
            self.world.later(d, self.exit, -NUM[name])

    def kill(self):
        self.send_signal('SIGKILL')


class World:
    pass


class Tie(Exception):
    """Two things happen at the same moment: any order would do."""


def apart(*times):
    times = [x for x in times if x is not None]
    if len(set(times)) < len(times):
        raise Tie()


def simulate(i, p, stop, due, signals):
    """What should happen to a process: events, signals, lines per stream, end."""
    ev, sent, lines, texts = [], [], ([], []), ['', '']
    t, retries, n = 0, 0, 0
    while True:
        r = p.run(n)
        pid = 1000 * (i + 1) + n
        start = t + p.latency
        if r.fail:
            return ev, sent, lines, texts, start
        ev.append((start, i, 'started', pid, None))
        end, rc = (float('inf') if r.dur is None else start + r.dur), r.rc
        apart(start, *(x for x, _, _ in signals))
        apart(start, stop, end)
        s0 = None
        if stop is not None and stop < end:
            s0 = max(stop, start)
        todo = [(x, s) for x, s, _ in signals if x > start]
        if s0 is not None:
            todo += ([(s0, 'SIGINT')] if due else []) + [(s0 + p.a, 'SIGTERM'), (s0 + p.a + p.b, 'SIGKILL')]
        for x, s in sorted(todo):
            if x == end:
                raise Tie()
            if x < end:
                sent.append((x, i, pid, s))
                d = r.react.get(s)
                if d is not None and x + d == end:
                    raise Tie()
                if d is not None and x + d < end:
                    end, rc = x + d, -NUM[s]
        ev.append((end, i, 'exited', pid, rc))
        for k in (0, 1):
            data = b''.join(d for x, e, d in sorted(r.chunks, key=lambda c: c[0]) if bool(e) == bool(k) and start + x < end)
            data += b''.join(d for e, d in r.left if bool(e) == bool(k))
            text = data.decode('utf-8', 'replace')
            texts[k] += text
            parts = text.split('\n')
            lines[k].extend(parts[:-1] + ([parts[-1]] if parts[-1] else []))
        n += 1
        if stop is not None and stop <= end or not p.respawn or 0 <= p.max_retries <= retries:
            return ev, sent, lines, texts, end
        retries += 1
        t = end
        if p.delay:
            if stop is not None and stop < end + p.delay:
                return ev, sent, lines, texts, stop
            t = end + p.delay
            apart(t, stop)


def play(procs, stops, due, interactive, signals, check):
    """Run the script; stops: per process the moment of its shutdown, or ('all', moment)."""
    w = World()
    w.loop = loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    w.now = lambda: round(loop.time() * 1000)
    w.later = lambda t, f, *a: loop.call_later(t / 1000, f, *a)
    w.signals, w.events, w.lines, w.counts, w.chunks = [], [], {}, {}, 0
    by_cmd = {}

    async def start(protocol_class, *, cmd, cwd=None, env=None, shell=False, emulate_tty=False, stderr_to_stdout=True):
        i = by_cmd[cmd[0]]
        p = procs[i]
        n = w.counts[i] = w.counts.get(i, -1) + 1
        r = p.run(n)
        eq(emulate_tty, p.tty if p.config is None else p.config == 'true', 'emulate_tty')
        await asyncio.sleep(p.latency / 1000)
        if r.fail:
            raise FileNotFoundError(cmd[0])
        protocol = protocol_class()
        t = Transport(w, i, n, protocol, r)
        protocol.connection_made(t)
        t.start(emulate_tty)
        return t, protocol

    class Log(logging.Handler):
        def __init__(self, key):
            super().__init__()
            self.key = key

        def emit(self, record):
            w.lines.setdefault(self.key, []).append(record.getMessage())

    def loggers(name, output):
        i = by_cmd[name.rsplit('-', 1)[0]]
        ls_ = []
        for k in (0, 1):
            g = logging.Logger('x')
            g.addHandler(Log((i, k)))
            ls_.append(g)
        return tuple(ls_)
    keep = el.async_execute_process, launch.logging.get_output_loggers
    el.async_execute_process, launch.logging.get_output_loggers = start, loggers
    try:
        ls = LaunchService(noninteractive=not interactive)
        actions = []
        for i, p in enumerate(procs):
            by_cmd['proc%d' % i] = i
            k = dict(respawn=p.respawn, respawn_delay=None if p.delay is None else p.delay / 1000, respawn_max_retries=p.max_retries,
                     sigterm_timeout=str(p.a / 1000), sigkill_timeout=str(p.b / 1000), cached_output=p.cached, emulate_tty=p.tty,
                     shell=bool(p.shell), log_cmd=bool(p.log_cmd), output={'both': 'screen'} if (i + len(procs)) % 2 else 'screen', output_format='%d|{line}' % i)
            if p.kind == 'local':
                actions.append(ExecuteLocal(process_description=Executable(cmd=['proc%d' % i]), **k))
            else:
                actions.append(ExecuteProcess(cmd=['proc%d' % i], **k))
        who = {id(a): i for i, a in enumerate(actions)}
        w.actions = actions

        def seen(event, context):
            i = who[id(event.action)]
            if isinstance(event, ProcessStarted):
                w.events.append((w.now(), i, 'started', event.pid, None))
            elif isinstance(event, ProcessExited):
                w.events.append((w.now(), i, 'exited', event.pid, event.returncode))

        class H(EventHandler):
            def handle(self, event, context):
                super().handle(event, context)
                return seen(event, context)
        ls.context.register_event_handler(H(matcher=lambda e: isinstance(e, (ProcessStarted, ProcessExited))))
        ents = list(actions)
        configs = {p.config for p in procs if p.config is not None}
        if configs:
            ls.context.launch_configurations['emulate_tty'] = configs.pop()
        ls.include_launch_description(LaunchDescription(ents))

        async def go():
            t0 = loop.time()
            if stops and stops[0] == 'all':
                loop.call_later(stops[1] / 1000, lambda: ls.context.emit_event_sync(Shutdown(reason='', due_to_sigint=due)))
            else:
                for i, s in enumerate(stops or ()):
                    if s is not None:
                        loop.call_later(s / 1000, lambda i=i: ls.context.emit_event_sync(
                            ShutdownProcess(process_matcher=matches_action(actions[i]))))
            for i, sigs in enumerate(signals):
                for x, s, how in sigs:
                    def send(i=i, s=s, how=how):
                        a = actions[i]
                        m = matches_action(a)
                        if how == 'pid':
                            m = matches_pid(a.process_details['pid'])
                        if how == 'name':
                            m = matches_name(a.process_details['name'])
                        ls.context.emit_event_sync(SignalProcess(
                            signal_number='SIGKILL' if s == 'SIGKILL' and how == 'pid' else getattr(signal, s), process_matcher=m))
                    loop.call_later(x / 1000, send)
            rc = await asyncio.wait_for(ls.run_async(), 1000)
            return rc, round((loop.time() - t0) * 1000)
        w.rc, w.end = loop.run_until_complete(go())
    finally:
        el.async_execute_process, launch.logging.get_output_loggers = keep
        loop.close()
        asyncio.set_event_loop(None)
    w.expected = expected(procs, stops, due, interactive, signals)
    check(w, procs)


def expected(procs, stops, due, interactive, signals):
    every = stops and stops[0] == 'all'
    sigint = not every or not due or not interactive
    return [simulate(i, p, stops[1] if every else stops[i] if stops else None, sigint, signals[i] if signals else ())
            for i, p in enumerate(procs)]


def check_signals(w, procs):
    want = sorted(x for e in w.expected for x in e[1])
    eq(sorted(w.signals), want, 'signals (ms, process, pid, signal)')
    # a timer that was not cancelled holds up the run
    eq(w.end, max([e[4] for e in w.expected] + [0]), 'no timer outlives the processes, the run ends')


def check_events(w, procs):
    eq(w.rc, 0, 'return code')
    for i in range(len(procs)):
        eq([e for e in w.events if e[1] == i], w.expected[i][0], 'events of process %d (ms, process, what, pid, return code)' % i)
        f = w.actions[i].get_asyncio_future()
        eq(f is None or f.done(), True, 'completion of process %d' % i)
    eq(w.end, max([e[4] for e in w.expected] + [0]), 'end of the run')


def check_lines(w, procs):
    for i, p in enumerate(procs):
        for k in (0, 1):
            eq(w.lines.get((i, k), []), ['%d|%s' % (i, x) for x in w.expected[i][2][k]], 'lines of process %d, stream %d' % (i, k))
        if p.cached:
            eq((w.actions[i].get_stdout(), w.actions[i].get_stderr()), tuple(w.expected[i][3]), 'kept output')
        else:
            raises(RuntimeError, w.actions[i].get_stdout, 'kept output')


TEXT = ['', 'a', 'line\n', '\n', 'no end', 'é', '日本\n', 'x' * 30, '\r\n', 'tab\there', '\x85', '\u2028', 'a\nb\nc', '{line}', '%s']


def output(r, dur, n):
    """A random text on each stream, split anywhere."""
    chunks = []
    for err in (0, 1):
        data = ''.join(r.choice(TEXT) for _ in range(r.randint(0, n))).encode()
        if r.random() < .1:
            data += b'\xff\xc3'
        cuts = sorted(r.sample(range(1, len(data)), min(len(data) - 1, r.randint(0, 4)))) if len(data) > 1 else []
        parts = [data[x:y] for x, y in zip([0] + cuts, cuts + [len(data)])] if data else []
        chunks.append(parts)
    slots = [x for x in range(1, dur * 10 - 10) if 3 <= x % 10 <= 7]
    at = sorted(r.sample(slots, min(len(chunks[0]) + len(chunks[1]), len(slots))))
    out, left = [], []
    order = [0] * len(chunks[0]) + [1] * len(chunks[1])
    r.shuffle(order)
    its = [iter(chunks[0]), iter(chunks[1])]
    out = [(x / 10, e, next(its[e])) for x, e in zip(at, order)]
    n = r.choice((0, 0, 1, 3))
    if n and r.random() < .5:
        left = [(e, d) for _, e, d in out[-n:]]
        out = out[:-n]
    return out, left


def scripts(h, check, key, focus):
    """Random scripts; moments never coincide."""
    r = h.rng

    coin = random.Random(h.rng.random())

    def one(procs, stops=(), due=False, interactive=False, signals=()):
        for p in procs:
            p.shell = coin.random() < .4 if p.shell is None else p.shell
            p.log_cmd = coin.random() < .3 if p.log_cmd is None else p.log_cmd
        h.case(key, (procs, stops, due, interactive, signals),
               lambda: play(procs, stops, due, interactive, signals or [()] * len(procs), check), timeout=30)
    slow = {'SIGINT': None, 'SIGTERM': None}
    one([Proc([Run()])])
    for react in ({}, {'SIGINT': 5}, {'SIGTERM': 5}, slow):
        for due in (0, 1):
            for inter in (0, 1):
                for at in (1, 7, 60):
                    for sh in (False, True):
                        one([Proc([Run(dur=None if at < 60 else 50, react=react)], a=17, b=31, shell=sh), Proc([Run(dur=40)], kind='process')],
                            ('all', at), bool(due), bool(inter))
        for at in (1, 7, 60):
            one([Proc([Run(dur=None if at < 60 else 50, react=react)], a=17, b=31), Proc([Run(dur=40)], kind='process')], (at, None))
    for m in (-1, 0, 1, 3):
        for d in (None, 0, 13):
            for at in ((None, 131) if m >= 0 else (1, 7, 25, 131, 133, 140)):
                one([Proc([Run(dur=20, rc=3), Run(dur=21)], respawn=True, max_retries=m, delay=d)], ('all', at) if at else ())
                if at:
                    one([Proc([Run(dur=20, rc=3), Run(dur=21)], respawn=True, max_retries=m, delay=d)], (at,))
    one([Proc([Run(fail=True)], respawn=True), Proc([Run(dur=20)])])
    one([Proc([Run(fail=True)], respawn=True), Proc([Run(dur=20)])], ('all', 1))
    one([Proc([Run(dur=10), Run(fail=True)], respawn=True)], ())
    for sig in ('SIGUSR1', 'SIGINT', 'SIGTERM', 'SIGKILL'):
        for how in ('action', 'pid', 'name'):
            one([Proc([Run(dur=40)]), Proc([Run(dur=40)]), Proc([Run(fail=True)], latency=1)], (), False, False, [[(11, sig, how)], (), ()])
    for cached in (False, True):
        for tty in (False, True):
            for parts in ([b'a\nb', b'c\n', b'd'], [b'\n\n', b'x'], [b'\xc3', b'\xa9\n'], [b'\xff'], [b'abc'], [b'a\n'] * 5):
                for left in (0, 1, 2):
                    ch = [(1 + i, i % 2 if left == 1 else 0, d) for i, d in enumerate(parts)]
                    cut = len(ch) - left
                    one([Proc([Run(dur=20, chunks=ch[:cut], left=[(e, d) for _, e, d in ch[cut:]])], cached=cached, tty=tty)])
            one([Proc([Run(dur=9, chunks=[(1, 0, b'one\ntwo'), (2, 1, b'err')], left=[(0, b'x')])], cached=cached, tty=tty,
                      respawn=True, max_retries=2, delay=4)])
            one([Proc([Run(dur=None, chunks=[(1, 0, b'one\ntwo'), (2, 1, b'err')], left=[(0, b'x\ny')], react={'SIGINT': 6})], cached=cached,
                      tty=tty)], ('all', 5))
    for _ in range(h.n(260)):
        n = r.choice((1, 1, 2, 3))
        procs = []
        stops = ()
        kind = r.choice(('none', 'all', 'each'))
        for i in range(n):
            runs = []
            for _ in range(r.randint(1, 3)):
                dur = r.choice((None, 6, 10, 20, 40))
                if kind == 'none' and dur is None:
                    dur = 30
                react = {}
                for s in ('SIGINT', 'SIGTERM', 'SIGUSR1'):
                    if r.random() < .5:
                        react[s] = r.choice((0, 0, 4, 8, 30))
                ch, left = output(r, dur or 20, 8 if focus == 'lines' else 2)
                runs.append(Run(dur, r.choice((0, 0, 1, 2, -11)), ch, left, r.random() < .07, react))
            respawn = r.random() < .5
            procs.append(Proc(runs, latency=r.choice((2, 4)) + 100 * i, respawn=respawn,
                              delay=r.choice((None, 0, 10, 20)), max_retries=r.choice((0, 1, 2, 5) if kind == 'none' else (-1, 0, 1, 3)),
                              a=r.choice((10, 20, 30)), b=r.choice((10, 20)), cached=r.random() < .3, tty=r.random() < .4,
                              kind=r.choice(('local', 'process'))))
        if kind != 'none':
            for p in procs:
                for x in p.runs:
                    if p.respawn and p.max_retries < 0 and not p.delay and x.dur == 6:
                        x.dur = 10
        if r.random() < .2:
            c = r.choice(('true', 'false'))
            for p in procs:
                p.config = c
        odd = [x for x in range(1, 240, 2)]
        if kind == 'all':
            stops = ('all', r.choice(odd))
        if kind == 'each':
            stops = tuple(r.choice(odd) for _ in range(n))
        signals = []
        used = {stops[1]} if kind == 'all' else set(stops)
        for i, p in enumerate(procs):
            s = []
            if r.random() < .4 and not any(x.fail for x in p.runs):
                for _ in range(r.randint(1, 3)):
                    x = r.choice([x for x in odd if x > p.latency + 1 and x not in used])
                    used.add(x)
                    s.append((x, r.choice(('SIGUSR1', 'SIGINT', 'SIGTERM', 'SIGKILL')), r.choice(('action', 'action', 'pid', 'name'))))
            signals.append(sorted(s))
        due, inter = r.random() < .5, r.random() < .5
        try:
            expected(procs, stops, due, inter, signals)
        except Tie:
            continue
        one(procs, stops, due, inter, signals)
