"""C32, bounded: outputs at chosen moments, from other threads, tasks and real processes."""
import asyncio
import sys
import threading
import time

import launch
from launch.actions import ExecuteProcess
from launch.events.process import ProcessExited, ProcessIO, ProcessStarted
import launch_pytest.tools.process as PT

from .common import *

RULE = ('random outputs, before, while and after the condition is asked and while it is waited for or never ceasing, of this and other processes, with and without a '
        'timeout, in threads and in a loop, and real processes; non-trivial: distinct cases')
LONG = 5.0


class Process_(ExecuteProcess):
    """An action whose output is given."""

    def __init__(self):
        super().__init__(cmd=['x'])
        self.out, self.err = '', ''

    def get_stdout(self):
        return self.out

    def get_stderr(self):
        return self.err


class Wrong(Exception):
    pass


def run(h):
    r = h.rng
    info = dict(name='x', cmd=['x'], cwd=None, env=None, pid=1)

    def one(i):
        sync = bool(i % 2)
        what = r.choice(['output', 'output', 'stderr', 'start', 'exit'])
        asserts = what in ('output', 'stderr') and r.random() < 0.4
        timeout = r.choice([None, LONG, LONG, 0.05])
        chunks = [r.choice('abc') * r.randint(1, 3) for _ in range(r.randint(0, 5))]
        need = r.randint(0, 4)                         # chunks that must have come
        if what in ('start', 'exit'):
            chunks, need = ['e'] * r.randint(0, 2), 1
        if timeout != 0.05 and need > len(chunks):
            chunks += ['d'] * (need - len(chunks))
        early = [r.choice([0, 0, 1, 2]) for _ in range(7)]     # chunks that come while the condition is asked, after it has been computed
        before = r.randint(0, 2) if what in ('output', 'stderr') else 0
        fails = r.random() < 0.1 and what in ('output', 'stderr')
        noise = r.random() < 0.4
        unrelated = r.random() < 0.3

        def f():
            ctx = LaunchContext()
            a, other = Process_(), Process_()
            given = []
            lock = threading.RLock()
            calls = [0]

            def emit(action, event):
                e = {'output': ProcessIO, 'stderr': ProcessIO, 'start': ProcessStarted, 'exit': ProcessExited}[event]
                kw = dict(text=b'x', fd=1 if event == 'output' else 2) if e is ProcessIO else dict(returncode=0) if e is ProcessExited else {}
                ev = e(action=action, **info, **kw)
                for hd in list(ctx._event_handlers):
                    if hd.matches(ev):
                        hd.handle(ev, ctx)

            def give(n=1):
                with lock:
                    for _ in range(n):
                        if len(given) < len(chunks):
                            given.append(chunks[len(given)])
                            if what == 'output':
                                a.out += given[-1]
                            elif what == 'stderr':
                                a.err += given[-1]
                            emit(a, what)
            give(before)

            def validate(text):
                calls[0] += 1
                with lock:
                    want = ''.join(given)
                    eq(text, want, 'the text asked about')
                    ok = len(given) >= need
                    if fails:
                        raise Wrong()
                give(early[min(calls[0] - 1, 6)])
                if asserts:
                    assert ok
                return ok
            name = '%s_%s%s' % ('assert' if asserts else 'wait_for', what, '_sync' if sync else '')
            args = (ctx, a) + ((validate,) if what in ('output', 'stderr') else ())
            kw = {} if timeout is None else dict(timeout=timeout)
            fn = getattr(PT, name)
            n0 = len(ctx._event_handlers)
            stop = threading.Event()

            def feed():
                # the first events only once this waits
                while not stop.is_set() and (calls[0] < 1 if what in ('output', 'stderr') else len(ctx._event_handlers) == n0):
                    time.sleep(0.001)
                while not stop.is_set():
                    if noise:
                        for e in ('output', 'stderr', 'start', 'exit'):
                            emit(other, e)
                            if e != what and unrelated:
                                emit(a, e)
                    if len(given) >= len(chunks):
                        if not noise:
                            return
                        time.sleep(0.02)
                        continue
                    give()
                    time.sleep(0.002)
            began = time.monotonic()
            if sync:
                t = threading.Thread(target=feed, daemon=True)
                t.start()
                res = []

                def body():
                    try:
                        res.append(('ok', fn(*args, **kw)))
                    except BaseException as e:  # noqa: B902
                        res.append(('raise', e))
                w = threading.Thread(target=body, daemon=True)
                w.start()
                w.join(LONG + 5)
                stop.set()
                t.join(5)
                eq(bool(res), True, 'it returns')
                k, v = res[0]
            else:
                async def main():
                    async def afeed():
                        while calls[0] < 1 if what in ('output', 'stderr') else len(ctx._event_handlers) == n0:
                            await asyncio.sleep(0.001)
                        while True:
                            if noise:
                                for e in ('output', 'stderr', 'start', 'exit'):
                                    emit(other, e)
                                    if e != what and unrelated:
                                        emit(a, e)
                            if len(given) < len(chunks):
                                give()
                            await asyncio.sleep(0.002)
                    t = asyncio.ensure_future(afeed())
                    try:
                        return 'ok', await asyncio.wait_for(fn(*args, **kw), LONG + 5)
                    except BaseException as e:  # noqa: B902
                        return 'raise', e
                    finally:
                        t.cancel()
                loop = asyncio.new_event_loop()
                try:
                    k, v = loop.run_until_complete(main())
                finally:
                    loop.close()
            took = time.monotonic() - began
            eq(len(ctx._event_handlers), n0, 'handlers left')
            if fails:
                eq((k, type(v)), ('raise', Wrong), 'errors of the function are its own')
                return
            comes = len(chunks) >= need
            if timeout == 0.05:
                # under load, it may be too late
                if comes:
                    return
                eq(took >= 0.045, True, 'in vain only after the timeout: %s' % took)
            eq(took < LONG - 1, True, 'took %s' % took)
            if asserts:
                eq((k, None if comes else type(v)), ('ok', None) if comes else ('raise', AssertionError), 'an assertion about the output')
            else:
                eq((k, bool(v)), ('ok', comes), 'whether it came')
        h.case('wait', (sync, what, asserts, timeout, chunks, need, early[:3], before, fails, noise), f, 15)

    def real(i):
        lines = [r.choice(['one', 'two', 'three']) for _ in range(r.randint(1, 4))]
        want = r.choice(lines + ['never'])
        delay = r.choice([0, 0.02])
        err = r.random() < 0.4
        use_assert = r.random() < 0.5

        def f():
            code = 'import sys,time\nf=sys.stderr if %r else sys.stdout\nfor l in %r:\n time.sleep(%r); f.write(l + chr(10)); f.flush()\n' % (err, lines, delay)
            a = ExecuteProcess(cmd=[sys.executable, '-c', code], output='own_log', cached_output=True)
            ls = LaunchService(noninteractive=True)
            ls.include_launch_description(LaunchDescription([a]))
            seen = []

            async def main():
                t = asyncio.ensure_future(ls.run_async(shutdown_when_idle=True))
                out = asyncio.ensure_future(getattr(PT, 'assert_%s' % n if use_assert else 'wait_for_%s' % n)(ls.context, a, check, LONG if want != 'never' else 0.2))
                start = asyncio.ensure_future(PT.wait_for_start(ls.context, a, timeout=LONG))
                exit_ = asyncio.ensure_future(PT.wait_for_exit(ls.context, a, timeout=LONG))
                for x in (out, start, exit_):
                    try:
                        seen.append(await x)
                    except AssertionError:
                        seen.append('AssertionError')
                await t

            def check(text):
                if use_assert:
                    assert want in text
                return want in text
            n = 'stderr' if err else 'output'
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                loop.run_until_complete(main())
            finally:
                loop.close()
            ok = want != 'never'
            eq(seen, [(None if ok else 'AssertionError') if use_assert else ok, True, True], 'output, start, exit')
        h.case('real', (lines, want, delay, err, use_assert), f, 30)
    def event(a, what):
        return ProcessIO(action=a, **info, text=b'x', fd=1 if what == 'output' else 2)

    def chatty(i):
        sync, what, asserts = bool(i % 2), ['output', 'stderr'][i // 2 % 2], bool(i // 4 % 2)

        def f():
            ctx, a = LaunchContext(), Process_()
            stop = threading.Event()

            def emit():
                e = event(a, what)
                for hd in list(ctx._event_handlers):
                    if hd.matches(e):
                        hd.handle(e, ctx)

            def never(text):
                assert not asserts
                return False
            fn = getattr(PT, '%s_%s%s' % ('assert' if asserts else 'wait_for', what, '_sync' if sync else ''))
            began = time.monotonic()
            if sync:
                def feed():
                    while not stop.is_set() and time.monotonic() < began + LONG:
                        emit()
                        time.sleep(0.01)
                t = threading.Thread(target=feed, daemon=True)
                t.start()
                try:
                    k = bool(fn(ctx, a, never, 0.1))
                except AssertionError:
                    k = 'AssertionError'
                stop.set()
                t.join(5)
            else:
                async def main():
                    async def feed():
                        while time.monotonic() < began + LONG:
                            emit()
                            await asyncio.sleep(0.01)
                    t = asyncio.ensure_future(feed())
                    try:
                        return bool(await fn(ctx, a, never, 0.1))
                    except AssertionError:
                        return 'AssertionError'
                    finally:
                        t.cancel()
                k = asyncio.run(main())
            took = time.monotonic() - began
            eq((k, 0.09 < took < LONG - 1), ('AssertionError' if asserts else False, True), 'output that never satisfies, %s' % took)
        h.case('chatty', (sync, what, asserts), f, 15)

    def late(i):
        sync, what = bool(i % 2), ['output', 'stderr'][i // 2 % 2]

        def f():
            # output of which no event came in time is asked about at the end
            ctx, a = LaunchContext(), Process_()
            fn = getattr(PT, 'assert_%s%s' % (what, '_sync' if sync else ''))

            def come():
                a.out = a.err = 'there'

            def check(text):
                assert text == 'there'
            if sync:
                t = threading.Timer(0.02, come)
                t.start()
                fn(ctx, a, check, 0.3)
                t.join(5)
            else:
                async def main():
                    asyncio.get_running_loop().call_later(0.02, come)
                    await fn(ctx, a, check, 0.3)
                asyncio.run(main())
        h.case('late', (sync, what), f, 15)

    def recorded(i):
        # launch records the output before the waiting thread is woken
        what = ['output', 'stderr'][i % 2]

        def f():
            ctx, a = LaunchContext(), Process_()
            told = []

            def record(e):
                time.sleep(0.2)
                told.append(e)
            ctx.register_event_handler(launch.event_handlers.OnProcessIO(target_action=a, on_stdout=record, on_stderr=record))
            res = []
            t = threading.Thread(target=lambda: res.append(getattr(PT, 'wait_for_%s_sync' % what)(ctx, a, lambda text: bool(told), LONG)))
            began = time.monotonic()
            n = len(ctx._event_handlers)
            t.start()
            while len(ctx._event_handlers) == n:
                time.sleep(0.001)
            time.sleep(0.05)
            e = event(a, what)
            for hd in list(ctx._event_handlers):
                if hd.matches(e):
                    hd.handle(e, ctx)
            t.join(LONG + 5)
            eq((res, time.monotonic() < began + LONG - 1), ([True], True), 'recorded before woken')
        h.case('recorded', what, f, 15)
    for i in range(8):
        chatty(i)
    for i in range(4):
        late(i)
    for i in range(2):
        recorded(i)
    for i in range(h.n(160, 1200)):
        one(i)
    for i in range(h.n(6, 60)):
        real(i)
