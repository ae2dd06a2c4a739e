"""C29, bounded: real test modules, loaded and run by unittest, some in a real launch."""
import contextlib
import functools
import io
import itertools
import types
import unittest

import launch_testing
import launch_testing.launch_test as LT
import launch_testing.markers as MK
from launch.actions import DeclareLaunchArgument, GroupAction, OpaqueFunction, TimerAction
from launch.conditions import IfCondition
from launch_testing.actions import ReadyToTest
from launch_testing.loader import LoadTestsFromPythonModule
from launch_testing.parse_arguments import parse_launch_arguments
from launch_testing.print_arguments import print_arguments_of_launch_description
from launch_testing.test_result import TestResult
from launch_testing.test_runner import LaunchTestRunner

from .common import *

RULE = ('random test modules (classes, phases, arguments, markers, parameters, outcomes of attempts); random command lines; '
        'non-trivial: distinct modules')


def run(h):
    r = h.rng
    NAMESPACE = {'one': 1, 'two': 'two', 'three': [3], 'four': None}

    def module(i):
        """A random module and what its tests do: (class, test) -> arguments."""
        log = []
        m = types.ModuleType('mod%d' % i)
        spec = {}

        def fn(cls, name, args, outcome=None, is_class=False):
            src = 'def %s(%s):\n    log.append((%r, %r, %s, dict(%s)))\n    return outcome and outcome()\n' % (
                name, ', '.join(['self'] + ['%s' % a for a in args]), cls, name, 'self', ', '.join('%s=%s' % (a, a) for a in args))
            ns = {'log': log, 'outcome': outcome}
            exec(src, ns)
            return classmethod(ns[name]) if is_class else ns[name]
        for c in r.sample(['A', 'B', 'C', 'D'], r.randrange(1, 5)):
            base = r.choice([unittest.TestCase] * 3 + [v for v in vars(m).values() if isinstance(v, type)])
            d = {'__module__': m.__name__}
            for n in r.sample(['test_x', 'test_y', 'test_z', 'setUp', 'tearDown', 'setUpClass', 'tearDownClass', 'helper'], r.randrange(1, 7)):
                args = r.sample(list(NAMESPACE), r.randrange(4))
                spec[c, n] = args
                f = fn(c, n, args, is_class=n.endswith('Class'))
                if n.startswith('test'):
                    how = r.random()
                    if how < .15:
                        def fails():
                            raise AssertionError('expected')
                        f = unittest.expectedFailure(fn(c, n, args, fails))
                        spec[c, n, 'how'] = 'expected'
                    elif how < .25:
                        f = unittest.skip('no')(f)
                        spec[c, n, 'how'] = 'skip'
                    elif how < .4:
                        def bad():
                            raise r.choice([ValueError, AssertionError])('bad')
                        f = fn(c, n, args, bad)
                        spec[c, n, 'how'] = 'bad'
                d[n] = f
            cls = type(c, (base,), d)
            if r.random() < .4:
                cls = launch_testing.post_shutdown_test()(cls)
            setattr(m, c, cls)
        return m, log, spec

    def load_case(i):
        m, log, spec = module(i)
        sets = r.choice([None, [], [1], ['a', 'b'], [(1, 2), (3, 4), ('x', None)]])
        marks = {'inner': r.random() < .3, 'outer': r.random() < .3}
        made = []

        def generate(p=None, q=None, **k):
            made.append((p, q))
            return LaunchDescription([ReadyToTest()]), {'four': 4}
        f = generate
        if marks['inner']:
            f = launch_testing.ready_to_test_action_timeout(5)(f)
        if sets is not None:
            f = launch_testing.parametrize('p,q' if len(sets) == 3 else 'p', sets)(f)
        if marks['outer']:
            f = launch_testing.ready_to_test_action_timeout(6)(MK.keep_alive(f))
        m.generate_test_description = f
        runs = LoadTestsFromPythonModule(m, name='n')
        tuples = [{}] if sets is None else [dict(zip('pq', s if isinstance(s, tuple) else (s,))) for s in sets]
        eq([x.param_args for x in runs], tuples, 'runs')
        for x, params in zip(runs, tuples):
            suffix = '[%s]' % ', '.join(map(str, params.values())) if params else ''
            eq(str(x), 'n' + suffix, 'name')
            eq(x.timeout, 6 if marks['outer'] else 5 if marks['inner'] else 15, 'timeout')
            eq(x.markers.get('keep_alive', False), marks['outer'], 'keep alive')
            made.clear()
            ld, context = x.normalized_test_description(ready_fn=lambda: None)
            eq((made, context), ([(params.get('p'), params.get('q'))], {'four': 4}), 'description')
            for phase, suite in (('pre', x.pre_shutdown_tests), ('post', x.post_shutdown_tests)):
                x.bind(suite, {'attr': 'value'}, dict(NAMESPACE, **params))
                log.clear()
                res = unittest.TextTestRunner(stream=io.StringIO(), resultclass=TestResult).run(suite)
                want = []
                for c, cls in vars(m).items():
                    if isinstance(cls, type) and getattr(cls, '__post_shutdown_test__', False) == (phase == 'post'):
                        want += [(c, n) for n in sorted(dir(cls)) if n.startswith('test')]

                def owner(c, n):
                    return next(k.__name__ for k in getattr(m, c).__mro__ if n in vars(k))
                got = sorted((t.__class__.__name__, t._testMethodName) for t in res.testCases if isinstance(t, unittest.TestCase))
                eq(got, sorted((c, n + suffix) for c, n in want), 'tests of the phase ' + phase)
                hows = {(c, n): spec.get((owner(c, n), n, 'how'), 'ok') for c, n in want}
                for how, l in (('expected', [t for t, _ in res.expectedFailures]), ('skip', [t for t, _ in res.skipped]),
                               ('bad', [t for t, _ in res.errors + res.failures])):
                    eq(sorted((t.__class__.__name__, t._testMethodName[:6]) for t in l), sorted(k for k in hows if hows[k] == how), how)
                eq(res.wasSuccessful(), 'bad' not in hows.values(), 'successful')
                for c, n, self, args in log:
                    real = self if isinstance(self, type) else type(self)
                    eq(owner(real.__name__, n), c, 'method')
                    eq(args, {a: dict(NAMESPACE, **params)[a] for a in spec[c, n]}, 'arguments of %s.%s' % (c, n))
                    assert real is not getattr(m, real.__name__)
                    with contextlib.redirect_stderr(io.StringIO()):
                        eq(getattr(real('helper') if False else self, 'attr') if not isinstance(self, type) else 'value', 'value', 'attribute')
                eq(sorted((type(s).__name__, n) for c, n, s, a in log if n.startswith('test')),
                   sorted(k for k in hows if hows[k] != 'skip'), 'tests that ran')
        return len(runs)

    def retry_case(i):
        """Random attempts of several tests of one case, some of which fail or record problems in subtests."""
        times = {n: r.randrange(1, 4) for n in ('test_b', 'test_c', 'test_d')}
        plans = {n: [r.choice(['pass', 'fail', 'error', 'subfail', 'suberror', 'fail']) for _ in range(4)] for n in ('test_a', 'test_b', 'test_c', 'test_d', 'test_e')}
        log, slept = [], []

        def test(n):
            def f(self):
                k = sum(1 for x in log if x == n)
                log.append(n)
                p = plans[n][k]
                if p.startswith('sub'):
                    with self.subTest(x=k):
                        raise AssertionError('sub') if p == 'subfail' else ValueError('sub')
                elif p == 'fail':
                    raise AssertionError('no')
                elif p == 'error':
                    raise ValueError('no')
            f.__name__ = n
            return f
        d = {n: test(n) for n in plans}
        delay = r.choice([None, 0, .001])
        for n in times:
            d[n] = MK.retry_on_failure(times=times[n], delay=delay)(d[n])
        T = type('T', (unittest.TestCase,), d)
        keep = MK.time.sleep
        res = r.choice([unittest.TestResult, TestResult])
        res = res() if res is unittest.TestResult else res(unittest.runner._WritelnDecorator(io.StringIO()), True, 1)
        MK.time.sleep = slept.append
        try:
            unittest.defaultTestLoader.loadTestsFromTestCase(T).run(res)
        finally:
            MK.time.sleep = keep
        tries, errors, failures = [], [], []
        for n in sorted(plans):
            k = 0
            while True:
                tries.append(n)
                p = plans[n][k]
                k += 1
                if p in ('pass', 'error') or k >= times.get(n, 1):
                    break
            if p in ('error', 'suberror'):
                errors.append(n)
            if p in ('fail', 'subfail'):
                failures.append(n)
        what = (times, plans)
        eq(log, tries, ('attempts', what))
        name = lambda t: t._testMethodName if hasattr(t, '_testMethodName') and not hasattr(t, 'test_case') else t.test_case._testMethodName   # noqa: E731
        eq([name(t) for t, _ in res.errors], errors, ('errors', what))
        eq([name(t) for t, _ in res.failures], failures, ('failures', what))
        eq(res.wasSuccessful(), not errors + failures, ('successful', what))
        eq(slept, [] if delay is None else [delay] * (len(tries) - len(plans)), ('delays', what))

    def ready_case(i):
        acts = [ReadyToTest() for _ in range(r.randrange(3))]
        left = list(acts)

        def tree(depth):
            out = []
            for _ in range(r.randrange(4)):
                c = r.random()
                if c < .3 and left:
                    out.append(left.pop(0))
                elif c < .4:
                    out.append(DeclareLaunchArgument('x', default_value=''))
                elif depth < 3:
                    sub = tree(depth + 1)
                    out.append(r.choice([lambda: GroupAction(sub), lambda: GroupAction(sub, condition=IfCondition('false')), lambda: LaunchDescription(sub),
                                         lambda: TimerAction(period=1., actions=sub)])())
            return out
        es = tree(0)
        used = [a for a in acts if a not in left]
        m = types.ModuleType('m')
        m.generate_test_description = lambda: LaunchDescription(es)
        x, = LoadTestsFromPythonModule(m)
        called = []
        try:
            x.normalized_test_description(ready_fn=lambda: called.append(1))
        except Exception as e:
            assert not used and 'ReadyToTest' in str(e), repr(e)
            return
        assert used, 'no ReadyToTest action'
        hits = []
        for a in used:
            called.clear()
            a.execute(None)
            hits.append(len(called))
        eq(sorted(hits), [0] * (len(used) - 1) + [1], 'ready actions')
        eq(hits[0], 1, 'the first')

    def argument_case(args):
        d = {}
        bad = False
        for a in args:
            n, s, v = a.partition(':=')
            bad = bad or not (n and s and v)
            d[n] = v
        try:
            got = list(parse_launch_arguments(args))
        except RuntimeError:
            assert bad
            return
        assert not bad, args
        eq(got, list(d.items()), args)

    def show_case(i):
        decls = []
        for n in r.sample(['a', 'b', 'c d', 'é'], r.randrange(4)):
            decls.append((n, r.choice([None, '', 'x', ['x', Lookup('q')]]), r.choice([None, 'text', 'more text']), r.random() < .3))
        ld = LaunchDescription([GroupAction([DeclareLaunchArgument(n, default_value=v, description=t)], condition=IfCondition('true'))
                                if c else DeclareLaunchArgument(n, default_value=v, description=t) for n, v, t, c in decls])
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            print_arguments_of_launch_description(launch_description=ld)
        text = out.getvalue()
        for n, v, t, c in decls:
            line = "    '%s':%s\n        %s" % (n, '*' if c else '', t or 'no description given')
            assert line in text, (line, text)
        eq(text.count('(default: '), sum(1 for d in decls if d[1] is not None), 'defaults')
        eq('No arguments' in text, not decls, 'none')
        eq('only used if' in text, any(d[3] for d in decls), 'conditional')

    def same_name_case(i):
        """Classes of the same name."""
        seen = []

        def case(k):
            class Case(unittest.TestCase):
                @classmethod
                def setUpClass(cls, value):
                    seen.append((k, 'up', value))

                @classmethod
                def tearDownClass(cls, value):
                    seen.append((k, 'down', value))

                def test_a(self, value):
                    seen.append((k, 'test', value))
            return Case
        m = types.ModuleType('m')
        n = r.randrange(2, 5)
        for k in range(n):
            setattr(m, 'c%d' % k, case(k))
        m.generate_test_description = lambda: None
        x, = LoadTestsFromPythonModule(m)
        x.bind(x.pre_shutdown_tests, {}, {'value': 1, 'other': 2})
        res = unittest.TestResult()
        x.pre_shutdown_tests.run(res)
        assert res.wasSuccessful(), res.errors
        eq(seen, [(k, w, 1) for k in range(n) for w in ('up', 'test', 'down')], 'calls')

    real_src = '''
import unittest, launch, launch_testing, launch_testing.actions
LOG = []
@launch_testing.markers.keep_alive
@launch_testing.parametrize('p', %(sets)r)
def generate_test_description(p):
    LOG.append(('describe', p))
    return launch.LaunchDescription([
        launch.actions.DeclareLaunchArgument('given', default_value='default'),
        launch.actions.OpaqueFunction(function=lambda c: LOG.append(('launched', p, c.launch_configurations['given']))),
        launch_testing.actions.ReadyToTest()]), {'extra': p * 2}
class Pre(unittest.TestCase):
    def test_a(self, p, extra, test_args, launch_service, proc_info):
        LOG.append(('pre', p, extra, test_args.get('given')))
        assert p != %(bad)r
class Post(unittest.TestCase):
    def test_b(self, proc_info, p, extra):
        LOG.append(('post', p, extra))
Post = launch_testing.post_shutdown_test()(Post)
'''

    def real_case(i):
        import sys
        sets = r.choice([['a'], ['a', 'b']])
        bad = r.choice([None, 'a', 'b'])
        given = r.choice([None, 'x y'])
        path = os.path.join(h.scratch, 'real%d_test.py' % i)
        with open(path, 'w') as f:
            f.write(real_src % dict(sets=sets, bad=bad))
        parser = LT.argparse.ArgumentParser()
        LT.add_arguments(parser)
        args = parser.parse_args([path] + (['given:=' + given] if given else []) + ['--junit-xml', path + '.xml'])
        keep = LT._load_python_file_as_module
        mods = []
        LT._load_python_file_as_module = lambda *a: mods.append(keep(*a)) or mods[-1]
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
                rc = LT.run(parser, args)
        finally:
            LT._load_python_file_as_module = keep
        eq(rc, int(bad in sets), 'return code')
        want = list(itertools.chain.from_iterable([('describe', p), ('launched', p, given or 'default'), ('pre', p, p * 2, given), ('post', p, p * 2)] for p in sets))
        eq(mods[0].LOG, want, 'what ran')
        import xml.etree.ElementTree as ET
        root = ET.parse(path + '.xml').getroot()
        eq(len(root.findall('.//testcase')), 2 * len(sets), 'cases in the report')
        eq(len(root.findall('.//failure')), int(bad in sets), 'failures in the report')
    for i in range(h.n(150)):
        h.case('load', i, lambda i=i: load_case(i))
    for i in range(h.n(200)):
        h.case('retry', i, lambda i=i: retry_case(i))
    for i in range(h.n(150)):
        h.case('ready', i, lambda i=i: ready_case(i))
    for i in range(h.n(6)):
        h.case('names', i, lambda i=i: same_name_case(i))
    parts = ['a', 'b', ':=', ':', '=', ' ', '', 'é', '\n']
    for i in range(h.n(300)):
        args = [''.join(r.choice(parts) for _ in range(r.randrange(6))) if r.random() < .4 else r.choice('ab') + ':=' + ''.join(
            r.choice(parts) for _ in range(r.randrange(1, 5))) for _ in range(r.randrange(4))]
        h.case('arguments', args, lambda args=args: argument_case(args))
    for i in range(h.n(60)):
        h.case('shown', i, lambda i=i: show_case(i))
    for i in range(h.n(4)):
        h.case('real', i, lambda i=i: real_case(i), timeout=60)
