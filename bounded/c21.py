import asyncio
import os
import random
import signal
import threading

from launch.utilities import AsyncSafeSignalManager
from .common import *

RULE = ('random scripts on real signals of this process: managers entered, nested, left normally or by an exception and used again, handlers '
        'registered, replaced (also by handlers) and raising, descriptors set meanwhile; calls, forwarded bytes and what is restored are compared; '
        'non-trivial: distinct scripts')

SIGS = [signal.SIGUSR1, signal.SIGUSR2, signal.SIGURG, signal.SIGWINCH, signal.SIGCONT, signal.SIGRTMIN, signal.SIGRTMAX, signal.SIGALRM,
        signal.SIGINT, signal.SIGTERM]


def wakeup_fd():
    fd = signal.set_wakeup_fd(-1)
    if fd != -1:
        signal.set_wakeup_fd(fd, warn_on_full_buffer=False)
    return fd


def pipe():
    a, b = os.pipe()
    os.set_blocking(a, False)
    os.set_blocking(b, False)
    return a, b


def drain(fd):
    try:
        return list(os.read(fd, 65536))
    except BlockingIOError:
        return []


class Boom(Exception):
    pass


def run(h):
    r = h.rng

    def one(script):
        """script: (outer descriptor?, steps); a step acts on the innermost manager or opens a block (steps, how it is left)."""
        outer, steps = script

        def f():
            loop = asyncio.new_event_loop()
            errors, got, expect, n_errors = [], [], [], 0
            loop.set_exception_handler(lambda lp, c: errors.append(c))
            old = {s: signal.signal(s, lambda *a: None) for s in SIGS}
            before = {s: signal.getsignal(s) for s in signal.valid_signals()}
            a, b = pipe()
            real = signal.set_wakeup_fd
            first = signal.set_wakeup_fd(b if outer else -1)
            pipes = [(a, b)]
            forward = []              # what the current previous descriptor should have got
            state = {'fd': (a, b) if outer else None, 'errors': 0}
            managers, registered, spare = [], [], []

            def handler(i, n, then):
                def fn(signum):
                    got.append((i, n, int(signum)))
                    if then == 'raise':
                        raise Boom()
                    if then:
                        m, regs = managers[i], registered[i]
                        s2, n2 = then
                        eq_old(m.handle(s2, handler(i, n2, None)), regs.get(int(s2)))
                        regs[int(s2)] = (n2, None)
                return fn

            def eq_old(h_, reg):
                eq(h_ is None, reg is None, 'handler replaced')

            def expected(sig):
                for i in reversed(range(len(managers))):
                    reg = registered[i].get(int(sig))
                    if reg is not None:
                        expect.append((i, reg[0], int(sig)))
                        if reg[1] == 'raise':
                            state['errors'] += 1
                if state['fd'] is not None:
                    forward.append(int(sig))

            def pump():
                for _ in range(2 + 2 * len(managers)):
                    loop.run_until_complete(asyncio.sleep(0))

            def do(steps):
                for s in steps:
                    k = s[0]
                    if k == 'handle' and managers:
                        _, sig, n, then = s
                        regs = registered[-1]
                        fn = handler(len(managers) - 1, n, then)
                        was = managers[-1].handle(sig, fn)
                        eq_old(was, regs.get(int(sig)))
                        regs[int(sig)] = (n, then, fn)
                        eq(managers[-1].handle(int(sig), fn) is fn, True, 'the handler last registered is the one replaced')
                    elif k == 'drop' and managers:
                        eq_old(managers[-1].handle(s[1], None), registered[-1].pop(int(s[1]), None))
                        eq(managers[-1].handle(s[1], None), None, 'nothing to drop')
                    elif k == 'send':
                        for sig in s[1]:
                            if managers:
                                # handlers that register others are sent alone, in a defined order
                                expected(sig)
                            elif state['fd'] is not None:
                                forward.append(int(sig))
                            os.kill(os.getpid(), sig)
                            if any(r_[1] not in (None, 'raise') for regs in registered for r_ in regs.values()):
                                pump()
                        pump()
                        eq(sorted(got), sorted(expect), 'handlers called')
                        for i in range(len(managers)):
                            eq([x for x in got if x[0] == i], [x for x in expect if x[0] == i], 'order of calls')
                        eq(len(errors), state['errors'], 'errors reported')
                        if state['fd'] is not None:
                            eq(drain(state['fd'][0]), forward, 'signals forwarded')
                            del forward[:]
                    elif k == 'fd' and managers:
                        p = pipe()
                        pipes.append(p)
                        prev = state['fd']
                        eq(signal.set_wakeup_fd(p[1]), prev[1] if prev else -1, 'descriptor before')
                        state['fd'] = p
                    elif k == 'no fd' and managers:
                        prev = state['fd']
                        eq(signal.set_wakeup_fd(-1), prev[1] if prev else -1, 'descriptor before')
                        state['fd'] = None
                    elif k == 'thread' and managers:
                        out = []

                        def go():
                            try:
                                signal.set_wakeup_fd(-1)
                            except ValueError as e:
                                out.append(e)
                        t = threading.Thread(target=go)
                        t.start()
                        t.join()
                        eq(len(out), 1, 'other threads cannot set the descriptor')
                    elif k == 'with':
                        _, inner, how, again = s
                        m, regs = (spare.pop() if again and spare else (AsyncSafeSignalManager(loop), {}))
                        fds = len(os.listdir('/proc/self/fd'))
                        opened = len(pipes)
                        depth = len(managers)
                        try:
                            with m as given:
                                eq(given is m, True, 'the manager is given')
                                managers.append(m)
                                registered.append({k_: v for k_, v in regs.items()})
                                # calls are attributed to the place in the nesting
                                for sig, reg in list(registered[-1].items()):
                                    fn = handler(depth, reg[0], reg[1])
                                    m.handle(sig, fn)
                                    registered[-1][sig] = (reg[0], reg[1], fn)
                                do(inner)
                                if how == 'raise':
                                    raise Boom()
                        except Boom:
                            pass
                        managers.pop()
                        spare.append((m, registered.pop()))
                        eq(len(os.listdir('/proc/self/fd')) - 2 * (len(pipes) - opened), fds, 'open descriptors')
            try:
                do(steps)
                want = state['fd'][1] if state['fd'] else -1
                eq(wakeup_fd(), want, 'wake-up descriptor afterwards')
                eq(signal.set_wakeup_fd is real, True, 'signal.set_wakeup_fd afterwards')
                eq({s: signal.getsignal(s) for s in signal.valid_signals()}, before, 'dispositions')
                eq(loop._selector.get_map() and len(loop._selector.get_map()), 1, 'readers left')
            finally:
                signal.set_wakeup_fd = real
                signal.set_wakeup_fd(first)
                for s, o in old.items():
                    signal.signal(s, o)
                for p in pipes:
                    os.close(p[0])
                    os.close(p[1])
                loop.close()
        h.case('script', script, f, timeout=15)

    def gen(depth, n):
        out = []
        for _ in range(r.randint(1, 5)):
            k = r.choice(['handle', 'handle', 'handle', 'send', 'send', 'drop', 'fd', 'no fd', 'thread', 'with', 'with'])
            if k == 'handle':
                then = r.choice([None, None, None, 'raise', (r.choice(SIGS), next(n))])
                out.append((k, r.choice(SIGS), next(n), then))
            elif k == 'send':
                out.append((k, tuple(r.choice(SIGS) for _ in range(r.randint(1, 6)))))
            elif k == 'drop':
                out.append((k, r.choice(SIGS)))
            elif k == 'with':
                if depth:
                    out.append((k, gen(depth - 1, n), r.choice(['', '', 'raise']), r.random() < .4))
            else:
                out.append((k,))
        return tuple(out)

    import itertools
    u1, u2 = SIGS[0], SIGS[1]
    everything = ('send', tuple(SIGS))
    for outer in (True, False):
        for s in SIGS:
            one((outer, (('with', (('handle', s, 1, None), everything, everything), '', False), everything)))
        one((outer, (('with', (('handle', u1, 1, 'raise'), ('handle', u2, 2, None), ('send', (u1, u2)), ('send', (u2, u1, u1, u2))), '', False),)))
        one((outer, (('with', (('handle', u1, 1, None), ('with', (('handle', u2, 2, None), everything), 'raise', False), everything), 'raise', False),)))
        one((outer, (('with', (('handle', u1, 1, None), ('handle', u2, 2, None), everything, ('drop', u1), everything), '', False),
                     ('with', (everything,), '', True))))
        one((outer, (('with', (('fd',), ('handle', u1, 1, None), everything, ('with', (('fd',), everything, ('no fd',), everything), '', False),
                               everything), '', False), everything)))
    for _ in range(h.n(250)):
        n = itertools.count()
        one((r.random() < .6, (('with', gen(2, n), r.choice(['', 'raise']), False),) + gen(2, n)))

    def elsewhere():
        out = []

        def go():
            loop = asyncio.new_event_loop()
            try:
                with AsyncSafeSignalManager(loop):
                    out.append('entered')
            except ValueError:
                out.append('refused')
            out.append(len(loop._selector.get_map()))
            loop.close()
        before, real, fds = wakeup_fd(), signal.set_wakeup_fd, len(os.listdir('/proc/self/fd'))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        eq(out, ['refused', 1], 'use in another thread')
        eq((wakeup_fd(), signal.set_wakeup_fd is real), (before, True), 'nothing changed')
        eq(len(os.listdir('/proc/self/fd')), fds, 'open descriptors')
    h.case('thread', 0, elsewhere)
