import argparse
import io
import os
import re
import sys
import tempfile
import threading
import unittest
import xml.etree.ElementTree as ET

import launch
from launch_testing.actions import ReadyToTest
from launch_testing.junitxml import unittestResultsToXml
from launch_testing.launch_test import add_arguments
from launch_testing.launch_test import run as launch_test_run
from launch_testing.loader import LoadTestsFromPythonModule
from launch_testing.ready_aggregator import ReadyAggregator
from launch_testing.test_result import FailResult, SkipResult, TestResult
from .common import *

RULE = ('unittest suites of up to 4 classes of up to 4 tests of 12 kinds of outcome (subtests, fixtures, control characters, '
        'parameters included), run for real, combined in 2 to 4 parts and reported; 1 to 40 actions in 1 to 8 threads getting '
        'ready; ready actions at 12 places of a description; whole launch tests; non-trivial: distinct collections')
KINDS = ('pass', 'fail', 'error', 'skip', 'xfail', 'xpass', 'sub0', 'sub1', 'sub2', 'suberr', 'teardown', 'chars', 'setup', 'subskip')
BAD = 'a\x00b\x1b[31m\ud800<&"\']]>\U0001f600\ufffe'


def make_class(name, kinds, fixture=None):
    d = {'__module__': 'pkg.mod'}
    for i, k in enumerate(kinds):
        def t(self, k=k):
            if k == 'fail':
                self.fail('no')
            elif k == 'error':
                raise RuntimeError('broken')
            elif k == 'skip':
                self.skipTest('not now')
            elif k == 'xfail':
                self.fail('expected')
            elif k == 'chars':
                self.fail(BAD)
            elif k.startswith('sub'):
                for j in range(3):
                    with self.subTest(j=j):
                        if k == 'suberr':
                            raise KeyError(j)
                        if k == 'subskip':
                            self.skipTest('s%d' % j)
                        if k[3:].isdigit():
                            self.assertGreaterEqual(j, int(k[3:]))
            elif k == 'teardown':
                self.addCleanup(lambda: 1 / 0)
            elif k == 'setup':
                pass
        if k in ('xfail', 'xpass'):
            t = unittest.expectedFailure(t)
        d['test_%d_%s' % (i, k)] = t

    def setUp(self):
        if '_setup' in self._testMethodName:
            raise OSError('setup')
    d['setUp'] = setUp
    if fixture == 'error':
        d['setUpClass'] = classmethod(lambda c: 1 / 0)
    elif fixture == 'skip':
        def skip(c):
            raise unittest.SkipTest('class')
        d['setUpClass'] = classmethod(skip)
    elif fixture == 'teardown':
        d['tearDownClass'] = classmethod(lambda c: 1 / 0)
    return type(name, (unittest.TestCase,), d)


OUTCOME = {'pass': (0, 0, 0), 'fail': (1, 0, 0), 'error': (0, 1, 0), 'skip': (0, 0, 1), 'xfail': (0, 0, 0), 'xpass': (1, 0, 0),
           'sub0': (0, 0, 0), 'sub1': (1, 0, 0), 'sub2': (2, 0, 0), 'suberr': (0, 3, 0), 'teardown': (0, 1, 0), 'chars': (1, 0, 0),
           'setup': (0, 1, 0), 'subskip': (0, 0, 3)}


def run_suite(classes):
    s = unittest.TestSuite(unittest.defaultTestLoader.loadTestsFromTestCase(c) for c in classes)
    return unittest.TextTestRunner(stream=io.StringIO(), verbosity=2, resultclass=TestResult).run(s)


def expected(spec):
    """{(class, name): outcome} of a suite, and the number of tests that ran."""
    d, n = {}, 0
    for name, kinds, fixture in spec:
        if fixture in ('error', 'skip') and kinds:
            d['', 'setUpClass (pkg.mod.%s)' % name] = (0, 1, 0) if fixture == 'error' else (0, 0, 1)
            continue
        for i, k in enumerate(kinds):
            d['pkg.mod.' + name, 'test_%d_%s' % (i, k)] = OUTCOME[k]
            n += 1
        if fixture == 'teardown' and kinds:
            d['', 'tearDownClass (pkg.mod.%s)' % name] = (0, 1, 0)
    return d, n


class Run:
    def __init__(self, classes):
        self.classes = classes

    def all_cases(self):
        for c in self.classes:
            yield from unittest.defaultTestLoader.loadTestsFromTestCase(c)


def check_suite(x, name, want, ran):
    eq(x.tag, 'testsuite')
    eq(x.get('name'), name, 'name of the suite')
    got = {}
    for c in x:
        key = (c.get('classname'), c.get('name'))
        assert key not in got, 'case %r comes twice' % (key,)
        got[key] = tuple(len(c.findall(t)) for t in ('failure', 'error', 'skipped'))
        assert float(c.get('time')) >= 0
    eq(got, want, 'cases')
    eq(int(x.get('tests')), ran, 'tests')
    for i, t in enumerate(('failures', 'errors', 'skipped')):
        eq(int(x.get(t)), sum(o[i] for o in want.values()), t)


def parse(results, name):
    b = io.BytesIO()
    unittestResultsToXml(test_results=results, name=name).write(b, encoding='utf-8', xml_declaration=True)
    return ET.fromstring(b.getvalue())


def timed(parts):
    """The durations a report gives, of results that took a known time each."""
    kept = [type(p) for p in parts]
    try:
        for i, p in enumerate(parts):
            p.__class__ = type('Timed', (type(p),), {'testTimes': property(lambda self, i=i: {
                c: (10 * i + j + 1) / 4 for j, c in enumerate(self.testCases)})})
        xs = parse({'part %d' % i: p for i, p in enumerate(parts)}, 'parts')
        eq(float(xs.get('time')), sum(sum(p.testTimes.values()) for p in parts), 'time of the report')
        for p, x in zip(parts, xs):
            eq(float(x.get('time')), sum(p.testTimes.values()), 'time of a suite')
            eq(sorted(float(c.get('time')) for c in x if float(c.get('time'))), sorted(p.testTimes.values()), 'times of the cases')
    finally:
        for p, k in zip(parts, kept):
            p.__class__ = k


def run(h):
    r = h.rng

    def combined(specs):
        def f():
            parts, wants, rans = [], [], []
            for spec in specs:
                parts.append(run_suite([make_class(*s) for s in spec]))
                w, n = expected(spec)
                wants.append(w)
                rans.append(n)
                eq(parts[-1].testsRun, n, 'tests of a part')
                eq(len(parts[-1].testCases), n, 'cases of a part')
                eq(parts[-1].wasSuccessful(), not any(o[0] or o[1] for o in w.values()), 'a part')
            fine = all(p.wasSuccessful() for p in parts)
            sizes = [[len(getattr(p, k)) for k in ('failures', 'errors', 'skipped', 'expectedFailures', 'unexpectedSuccesses')]
                     for p in parts]
            seen = [list(p.testCases) for p in parts]
            xs = parse({'part %d' % i: p for i, p in enumerate(parts)}, 'parts')
            eq(len(xs), len(parts), 'suites')
            for i, x in enumerate(xs):
                check_suite(x, 'part %d' % i, wants[i], rans[i])
            timed(parts)
            for t, i in (('tests', None), ('failures', 0), ('errors', 1)):
                eq(int(xs.get(t)), sum(rans) if i is None else sum(o[i] for w in wants for o in w.values()), t)
            a = parts[0]
            for p in parts[1:]:
                a.append(p)
            eq(a.wasSuccessful(), fine, 'success of the combination')
            eq(a.testsRun, sum(rans), 'tests of the combination')
            eq([len(getattr(a, k)) for k in ('failures', 'errors', 'skipped', 'expectedFailures', 'unexpectedSuccesses')],
               [sum(s) for s in zip(*sizes)], 'outcomes of the combination')
            eq([len(p.testCases) for p in parts[1:]], [len(s) for s in seen[1:]], 'cases of the parts')
            eq([id(c) for c in a.testCases], [id(c) for s in seen for c in s], 'cases of the combination')
            assert all(t >= 0 for t in a.testTimes.values())
            eq(list(a.testTimes), list(a.testCases), 'durations')
            x = parse({'all': a}, 'x')
            eq(x.get('name'), 'x')
            allw = {}
            for w in wants:
                allw.update(w)
            check_suite(x[0], 'all', allw, sum(rans))
        h.case('combined', repr(specs), f)
    count = [0]

    def spec():
        s = []
        for _ in range(r.randint(0, 4)):
            count[0] += 1
            s.append(('C%d' % count[0], [r.choice(KINDS) for _ in range(r.randint(0, 4))],
                      r.choice([None, None, None, 'error', 'skip', 'teardown'])))
        return s
    for k in KINDS:
        count[0] += 1
        combined([[('K%d' % count[0], [k], None)], [('L%d' % count[0], ['pass'], None)]])
        combined([[('L%d' % count[0], ['pass'], None)], [('K%d' % count[0], [k], None)]])
    for _ in range(h.n(150)):
        combined([spec() for _ in range(r.randint(2, 4))])

    def whole(kinds, why):
        def f():
            cs = [make_class('A', kinds), make_class('B', kinds[:1])]
            n = len(kinds) + len(kinds[:1])
            for t, i in ((FailResult, 0), (SkipResult, 2)):
                x = t(Run(cs), why)
                eq(x.testsRun, n, 'every case is counted')
                eq(x.wasSuccessful(), i == 2, 'success')
                eq(len(list(x.testCases)), n, 'cases')
                want = {('pkg.mod.' + c, 'test_%d_%s' % (j, k)): tuple(int(i == q) for q in range(3))
                        for c, ks in (('A', kinds), ('B', kinds[:1])) for j, k in enumerate(ks)}
                check_suite(parse({'run': x}, 'y')[0], 'run', want, n)
        h.case('whole', (tuple(kinds), why), f)
    for why in ('because', '', BAD):
        for ks in ([], ['pass'], ['fail', 'pass', 'sub1']):
            whole(ks, why)

    def names(params):
        def f():
            class Mod:
                pass
            m = Mod()
            m.__name__ = 'mod'

            @launch_testing_parametrize(params)
            def gen(p):
                return launch.LaunchDescription([ReadyToTest()])
            m.generate_test_description = gen
            m.Pre = make_class('Pre', ['pass', 'fail', 'xpass'])
            m.Post = unittest.TestCase.__subclasses__ and __import__('launch_testing').post_shutdown_test()(make_class('Post', ['pass']))
            runs = LoadTestsFromPythonModule(m, name='n')
            eq(len(runs), len(params), 'runs')
            eq([str(x) for x in runs], ['n[%s]' % (p,) for p in params], 'names of the runs')
            for p, tr in zip(params, runs):
                res = [unittest.TextTestRunner(stream=io.StringIO(), resultclass=TestResult).run(s)
                       for s in (tr.pre_shutdown_tests, tr.post_shutdown_tests)]
                res[0].append(res[1])
                x = parse({tr: res[0]}, 'z')[0]
                want = {('pkg.mod.Pre', 'test_0_pass[%s]' % (p,)): (0, 0, 0), ('pkg.mod.Pre', 'test_1_fail[%s]' % (p,)): (1, 0, 0),
                        ('pkg.mod.Pre', 'test_2_xpass[%s]' % (p,)): (1, 0, 0), ('pkg.mod.Post', 'test_0_pass[%s]' % (p,)): (0, 0, 0)}
                check_suite(x, 'n[%s]' % (p,), want, 4)
        h.case('names', tuple(params), f)
    from launch_testing.parametrize import parametrize

    def launch_testing_parametrize(ps):
        return parametrize('p', ps)
    for ps in (['a'], ['a', 'b.c'], [1.5, 'x y', 'q.r [s]'], ['', '/a/b.py']):
        names(ps)

    # ------------------------------------------------------------ readiness
    def ready(n, threads, extra):
        def f():
            calls = []
            done = []
            a = ReadyAggregator(lambda: calls.append(len(done)), n)

            def work(k):
                for _ in range(k):
                    a.ready_fn()
            if threads == 1:
                for i in range(n + extra):
                    done.append(i)
                    a.ready_fn()
                    eq(len(calls), int(i >= n - 1), 'signals after %d calls of %d' % (i + 1, n))
                eq(calls, [n], 'at the last call')
                return
            share = [(n // threads) + (1 if i < n % threads else 0) for i in range(threads)]
            ts = [threading.Thread(target=work, args=(k,)) for k in share]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            eq(len(calls), 1, 'signals')
        h.case('ready', (n, threads, extra), f)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for n in (1, 2, 3, 7, 40):
            for t in (1, 2, 8):
                ready(n, t, r.choice([0, 1, 5]) if t == 1 else 0)
        ready(20000, 4, 0)
    finally:
        sys.setswitchinterval(old)

    def between(n, at):
        """A call from another thread between any two lines of one that is under way."""
        def f():
            calls, other, seen = [], [], [0]
            a = ReadyAggregator(lambda: calls.append(1), n)

            def trace(frame, event, arg):
                if frame.f_code is not ReadyAggregator.ready_fn.__code__:
                    return None
                if event == 'line':
                    seen[0] += 1
                    if seen[0] == at:
                        other.append(threading.Thread(target=a.ready_fn))
                        other[0].start()
                        other[0].join(0.1)      # it has to wait where it may not go on
                return trace
            keep = sys.gettrace()
            sys.settrace(trace)
            try:
                a.ready_fn()
            finally:
                sys.settrace(keep)
            for t in other:
                t.join()
            eq(len(calls), int(1 + len(other) >= n), 'signals')
        h.case('between', (n, at), f)
    for n in (1, 2, 3):
        for at in range(1, 12):
            between(n, at)

    def reentrant():
        log = []

        def parent():
            log.append('ready')
            a.ready_fn()
        a = ReadyAggregator(parent, 2)
        a.ready_fn()
        eq(log, [])
        a.ready_fn()
        eq(log, ['ready'], 'signals once, and the parent may call again')
    h.case('reentrant', (), reentrant)

    def places(i):
        def f():
            from launch.actions import (EmitEvent, GroupAction, IncludeLaunchDescription, OpaqueFunction, RegisterEventHandler,
                                        SetLaunchConfiguration, TimerAction)
            from launch.conditions import IfCondition
            from launch.event_handlers import OnProcessStart, OnShutdown
            from launch import LaunchDescriptionSource
            from launch_testing.loader import _normalize_ld
            a = ReadyToTest()
            plain = SetLaunchConfiguration('x', 'y')
            e = [
                lambda: [a], lambda: [plain, a, plain], lambda: [GroupAction([a])], lambda: [TimerAction(period=1., actions=[a])],
                lambda: [TimerAction(period=1., actions=[GroupAction([plain, a])])],
                lambda: [IncludeLaunchDescription(LaunchDescriptionSource(launch.LaunchDescription([a])))],
                lambda: [RegisterEventHandler(OnProcessStart(on_start=[a]))],
                lambda: [GroupAction([GroupAction([plain]), GroupAction([a])], scoped=False)],
                lambda: [launch.LaunchDescription([a])],
                lambda: [launch.actions.ExecuteProcess(cmd=['x'], on_exit=[a])],
                lambda: [GroupAction([a], condition=IfCondition('true'))],
                lambda: [RegisterEventHandler(OnProcessStart(on_start=[TimerAction(period=1., actions=[a])]))],
            ][i]()
            calls = []
            desc = launch.LaunchDescription(e)
            for made in (desc, (desc, {'q': 1})):
                fn = _normalize_ld(lambda **k: (seen.append(k), made)[1])
                seen = []
                d, ctx = fn(ready_fn=lambda: calls.append(1), par=5)
                eq(seen, [{'par': 5}], 'arguments of the function')
                assert d is desc
                eq(ctx, {'q': 1} if isinstance(made, tuple) else {}, 'context')
            eq(calls, [], 'not ready yet')
            a.execute(launch.LaunchContext())
            eq(calls, [1, 1], 'ready when the action is executed')
            raises(Exception, lambda: _normalize_ld(lambda: launch.LaunchDescription([plain]))(ready_fn=None), 'no ready action')
        h.case('places', (i,), f)
    for i in range(12):
        places(i)

    # ------------------------------------------------------------ whole launch tests
    def launch_test_run_(body, rc, want, args=()):
        if True:
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 'some_test.py')
                with open(p, 'w') as o:
                    o.write(HEAD + body)
                parser = argparse.ArgumentParser()
                add_arguments(parser)
                x = os.path.join(d, 'out.xml')
                out, err = sys.stdout, sys.stderr
                sys.stdout = sys.stderr = io.StringIO()
                try:
                    got = launch_test_run(parser, parser.parse_args([p, '--junit-xml', x, *args]))
                finally:
                    sys.stdout, sys.stderr = out, err
                eq(got, rc, 'result of the launch test')
                t = ET.parse(x).getroot()
                eq({s.get('name').rpartition('.')[2]: {c.get('name'): tuple(len(c.findall(q)) for q in ('failure', 'error', 'skipped'))
                                                       for c in s} for s in t}, want, 'report')

    def launch_test(*a):
        h.case('launch_test', a[:2], lambda: launch_test_run_(*a))
    HEAD = re.sub('^    ', '', '''
    import unittest, sys, time, launch, launch_testing
    from launch.actions import *
    def proc(*c):
        return ExecuteProcess(cmd=[sys.executable, '-c', *c])
    def desc(*e):
        return launch.LaunchDescription([*e, launch_testing.actions.ReadyToTest()])
    ''', flags=re.M)
    alive = "def generate_test_description():\n    return desc(proc('import os, time; os.write(1, b\"up\\\\n\"); time.sleep(60)'))\n"
    launch_test(alive + '''
class A(unittest.TestCase):
    def test_up(self, proc_output):
        proc_output.assertWaitFor('up', timeout=10, stream='stdout')
    def test_no(self):
        self.fail('no')
@launch_testing.post_shutdown_test()
class B(unittest.TestCase):
    def test_code(self, proc_info, proc_output):
        self.assertEqual([x.returncode for x in proc_info], [-2])
        self.assertEqual(''.join(x.text.decode() for x in proc_output if x.from_stdout), 'up\\n')
''', 1, {'launch_tests': {'test_up': (0, 0, 0), 'test_no': (1, 0, 0), 'test_code': (0, 0, 0)}})
    launch_test(alive + '''
class A(unittest.TestCase):
    def test_up(self, proc_output):
        proc_output.assertWaitFor('up', timeout=10, stream='stdout')
@launch_testing.post_shutdown_test()
class B(unittest.TestCase):
    def test_b(self):
        pass
''', 0, {'launch_tests': {'test_up': (0, 0, 0), 'test_b': (0, 0, 0)}})
    launch_test('''
@launch_testing.parametrize('p', ['a', 'b'])
def generate_test_description(p):
    if p == 'a':
        raise unittest.SkipTest('not a')
    return desc(TimerAction(period=60., actions=[]))
class A(unittest.TestCase):
    def test_p(self, p):
        self.assertEqual(p, 'b')
@launch_testing.post_shutdown_test()
class B(unittest.TestCase):
    def test_q(self, p):
        self.assertEqual(p, 'c')
''', 1, {'launch_tests[a]': {'test_p[a]': (0, 0, 1), 'test_q[a]': (0, 0, 1)},
         'launch_tests[b]': {'test_p[b]': (0, 0, 0), 'test_q[b]': (1, 0, 0)}})
    launch_test('''
def generate_test_description():
    return desc(OpaqueFunction(function=lambda c: None))
class A(unittest.TestCase):
    def test_long(self):
        time.sleep(5)
''', 1, {'launch_tests': {'test_long': (1, 0, 0)}})

    # the launch dies first: every test fails; output that is not ASCII is a known finding
    KEY = 'worker/a launch that died is reported: output that is not ASCII'
    for byte in (97, 255):
        body = """
def generate_test_description():
    return launch.LaunchDescription([proc('import os; os.write(1, bytes([%d])); os._exit(3)'), GroupAction([
        launch_testing.actions.ReadyToTest()], condition=launch.conditions.IfCondition('false'))])
class A(unittest.TestCase):
    def test_it(self):
        pass
""" % byte
        try:
            launch_test_run_(body, 1, {'launch_tests': {'test_it': (1, 0, 0)}})
        except UnicodeDecodeError as exc:
            def died(exc=exc):
                raise exc
            h.case('launch_test' if byte < 128 else KEY, body, died)
        except BaseException as exc:
            def other(exc=exc):
                raise exc
            h.case('launch_test', body, other)
        else:
            h.case('launch_test', body, lambda: None)
