import itertools
import re
import sys
import tempfile
import types

from launch import Action
from launch.actions import ExecuteProcess, OpaqueCoroutine, OpaqueFunction
from launch_testing.legacy import LaunchTestService
from launch_testing.legacy import output as O
from .common import *

RULE = ('launch tests of real processes with every combination of ends, output tests over outputs cut in every way, and output filters over '
        'up to three lines; non-trivial: several tests, output that is missing, lines cut between outputs')


class Runner:
    def __init__(self, ld):
        self.ld = ld

    def run(self):
        rc, self.ls = run_ld([self.ld], noninteractive=True)
        return rc


def py(code):
    return ExecuteProcess(cmd=[sys.executable, '-S', '-c', code], output='log')


def run(h):
    def ends(codes):
        def f():
            s, ld = LaunchTestService(), LaunchDescription()
            for c in codes:
                s.add_test_action(ld, ExecuteProcess(cmd=['sh', '-c', 'exit %d' % c]))
            rc = s.run(Runner(ld))
            bad = [c for c in codes if c]
            # the others are interrupted once one has failed
            if (rc not in bad + [-2]) if bad else rc:
                raise AssertionError('return code %r' % rc)
        h.case('ends', codes, f)
    for codes in [(0,), (3,), (0, 0), (0, 4), (5, 0), (0, 0, 0), (1, 1)]:
        ends(codes)

    def first(code, kind, later):
        def f():
            s, ld = LaunchTestService(), LaunchDescription()
            add = {'test': s.add_test_action, 'fixture': lambda l, a: s.add_fixture_action(l, a, exit_allowed=[0])}
            # the second is up before the first fails, and ends by another code when it is interrupted
            add[kind](ld, py('import os, time\nwhile not os.path.exists(%r): time.sleep(0.01)\nos._exit(%d)' % (mark, code)))
            add['test'](ld, py('import os, signal, time\nsignal.signal(2, lambda *_: os._exit(%d))\nopen(%r, "w")\ntime.sleep(20)\n'
                               % (later, mark)))
            rc = s.run(Runner(ld))
            eq(rc, code, 'the first that failed')
        with tempfile.TemporaryDirectory() as d:
            mark = d + '/up'
            h.case('first', (code, kind, later), f)
    for code, kind, later in ((5, 'test', 6), (6, 'test', 5), (5, 'fixture', 6), (7, 'test', 0)):
        first(code, kind, later)

    def fixture(code, allowed, late, test=True):
        def f():
            s, ld = LaunchTestService(), LaunchDescription()
            kw = {} if allowed == 'default' else {'exit_allowed': allowed}
            fx = s.add_fixture_action(ld, ExecuteProcess(cmd=['sh', '-c', 'sleep 20' if late else 'exit %d' % code]), **kw)
            if test:
                s.add_test_action(ld, ExecuteProcess(cmd=['sh', '-c', 'sleep 0.3']))
            if s.add_fixture_action(ld, OpaqueFunction(function=lambda c: None)) is None or fx is None:
                raise AssertionError('no action')
            rc = s.run(Runner(ld))
            ok = late or (code in ([0] if allowed == 'default' else allowed) if allowed not in (True, False) else allowed)
            eq(bool(rc), not ok, 'a failure')
            if not ok and code and rc not in (code, -2):
                raise AssertionError('return code %r' % rc)
        h.case('fixture', (code, repr(allowed), late, test), f)
    for code, allowed in itertools.product((0, 3), ('default', True, False, [], [3], [0, 1])):
        fixture(code, allowed, False)
        fixture(code, allowed, False, False)
    fixture(0, 'default', True)

    def action(how, n):
        def f():
            s, ld = LaunchTestService(), LaunchDescription()

            async def co(context):
                if how == 'raise':
                    raise RuntimeError('x')
            for i in range(n):
                s.add_test_action(ld, OpaqueCoroutine(coroutine=co) if how != 'function' else OpaqueFunction(function=lambda c: None))
            rc = s.run(Runner(ld))
            eq(bool(rc), how == 'raise', 'a failure')
        h.case('action', (how, n), f)
    for how in ('raise', 'ok'):
        for n in (1, 2):
            action(how, n)

    def out(code, test, good, side, extra, filt):
        def f():
            s, ld = LaunchTestService(), LaunchDescription()
            p = s.add_fixture_action(ld, py(code), exit_allowed=True)
            if extra is not None:
                s.add_test_action(ld, ExecuteProcess(cmd=['sh', '-c', extra]))
            kw = {'side_effect': side} if side else {}
            if filt:
                kw['output_filter'] = O.create_output_lines_filter(filtered_patterns=[b'b.*'])
            s.add_output_test(ld, p, test(), **kw)
            rc = s.run(Runner(ld))
            eq(bool(rc), not good, 'a failure')
        h.case('output', (code, good, side, extra, filt), f)
    two = "import sys, time\nsys.stdout.write('one\\n'); sys.stdout.flush(); time.sleep(0.15); print('two'); sys.stdout.flush()"
    stay = two + '\ntime.sleep(20)'
    lines = lambda *ls: lambda: O.create_output_lines_test(list(ls))                      # noqa: E731
    regex = lambda *ls: lambda: O.create_output_regex_test([re.compile(x) for x in ls])   # noqa: E731
    out(two, lines(b'one', b'two'), True, None, None, False)
    out(two, lines(b'one', b'three'), False, None, None, False)
    out(two, lines(b'three'), False, None, 'true', False)
    out(two, lines(b'two'), True, None, 'sleep 0.1', False)
    out(stay, lines(b'two', b'one'), True, None, None, False)
    out(stay, lines(b'two'), True, 'shutdown', None, False)
    out(two, regex(b'one\ntw.'), True, None, None, False)
    out(two, regex(b'one two'), False, None, None, False)
    out('import time; time.sleep(0.3)', lines(b'two'), False, None, 'echo two', False)
    out('print("abc"); print("bcd")', lines(b'bcd'), False, None, None, True)
    out('print("abc"); print("acd"); print("bcd")', lines(b'abc', b'acd'), True, None, None, True)

    # output cut in every way
    def cut(kind, data, pats, at):
        def f():
            o, collate, match, ps = (O.create_output_lines_test if kind == 'lines' else lambda x: O.create_output_regex_test([re.compile(p) for p in x]))(pats)
            for piece in [data[i:j] for i, j in zip((0,) + at, at + (len(data),))]:
                o = collate(o, piece)
            for p, given in zip(ps, pats):
                want = any(given in x for x in data.splitlines()) if kind == 'lines' else bool(re.search(given, data))
                eq(bool(match(o, p)), want, 'match of %r' % given)
        h.case('cut', (kind, data, at), f)
    data = b'ab\ncd\n\ne'
    for at in [()] + [(i,) for i in range(len(data))] + [(2, 3), (3, 6), (1, 5), (3, 7)]:
        cut('lines', data, [b'ab', b'bc', b'd', b'x', b'e'], at)
        cut('regex', data, [b'ab\ncd', b'abcd', b'^ab$', b'(?m)^cd$', b'd\n\ne', b'c.e'], at)

    def filt(data, prefixes, patterns, rmw):
        def f():
            old = O.ament_index_python
            res = {('rmw_output_prefixes', 'r'): 'WARN\nrr', ('rmw_output_patterns', 'r'): '.*z$'}
            O.ament_index_python = types.SimpleNamespace(has_resource=lambda t, n: (t, n) in res, get_resource=lambda t, n: (res[t, n], '/x'))
            try:
                kw = {k: list(v) for k, v in (('filtered_prefixes', prefixes), ('filtered_patterns', patterns)) if v}
                given = {k: list(v) for k, v in kw.items()}
                if rmw:
                    kw['filtered_rmw_implementation'] = 'r'
                fn = O.create_output_lines_filter(**kw)
                eq({k: v for k, v in kw.items() if k in given}, given, 'the given lists')
                pre = list(prefixes or [b'pid', b'rc']) + ([b'WARN', b'rr'] if rmw else [])
                pat = list(patterns or []) + ([b'.*z$'] if rmw else [])
                want = [x for x in data.splitlines() if not any(x.startswith(p) for p in pre) and not any(re.match(p, x) for p in pat)]
                for _ in range(2):
                    got = fn(data)
                    eq(got.splitlines(), want, 'lines')
                    if want and len(fn(data.splitlines()[-1])):       # the last line is kept
                        eq(got.endswith(b'\n'), data.endswith(b'\n'), 'ends with a line end')
            finally:
                O.ament_index_python = old
        h.case('filter', (data, prefixes, patterns, rmw), f)
    pool = [b'pid 1', b'a', b'xz', b'WARN', b'']
    for n in (1, 2, 3):
        for ls in itertools.product(pool, repeat=n):
            if ls[-1] == b'':
                continue
            for end in (b'', b'\n'):
                d = b'\n'.join(ls) + end
                filt(d, (), (), False)
                filt(d, (b'a',), (b'x',), False)
                filt(d, (), (b'.*d', b'W'), True)
                if n < 3:
                    filt(d, (b'W',), (), True)

    def wrong():
        raises(TypeError, lambda: O.get_rmw_output_filter('r', 'other'))
        with tempfile.TemporaryDirectory() as d:
            raises(RuntimeError, lambda: O.create_output_test_from_file(d + '/x'))
    h.case('wrong', None, wrong)

    def from_file(names):
        def f():
            with tempfile.TemporaryDirectory() as d:
                for n in names:
                    with open(d + '/x' + n, 'wb') as fh:
                        fh.write(b'a.c\nde')
                o, collate, match, ps = O.create_output_test_from_file(d + '/x')
                o = collate(o, b'abc\nde\n')
                eq([bool(match(o, p)) for p in ps], [names != ['.txt', '.regex'] and '.txt' not in names, True], 'matches')
        h.case('file', tuple(names), f)
    from_file(['.txt'])
    from_file(['.regex'])
    from_file(['.txt', '.regex'])
