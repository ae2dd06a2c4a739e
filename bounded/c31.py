"""C31, bounded: real pytest sessions over generated launch tests."""
import itertools
import json
import shutil
import subprocess
import sys

from .common import *

RULE = ('random test files (functions, coroutines, generators, async generators; fixtures of all scopes, with parameters, options and every kind of result; '
        'tests that fail, launches that finish early or fail), run by pytest, and all orders of up to five tests; non-trivial: distinct sessions')
REPORT = '''
import json, os, pytest
@pytest.hookimpl(hookwrapper=True)
def pytest_runtest_makereport(item, call):
    outcome = yield
    report = outcome.get_result()
    # both parts of a generator have the same nodeid
    name = report.nodeid.rsplit('::', 1)[0] + '::' + item.name
    with open(os.environ['C31_LOG'], 'a') as f:
        f.write(json.dumps(['report', name, report.when, report.outcome, str(report.longrepr or '')[-1500:]]) + chr(10))
def pytest_collectreport(report):
    if report.failed:
        with open(os.environ['C31_LOG'], 'a') as f:
            f.write(json.dumps(['collect', report.nodeid, '', 'failed', str(report.longrepr or '')[-1500:]]) + chr(10))
'''
HEAD = '''
import json, os, asyncio
import launch, launch_pytest, pytest
from launch.actions import *
from launch.event_handlers import *
from launch.events import Shutdown as ShutdownEvent
from launch_pytest.actions import ReadyToTest
count = [0]
def log(*a):
    with open(os.environ['C31_LOG'], 'a') as f:
        f.write(json.dumps(a) + chr(10))
def describe(name, ready, fate, auto):
    count[0] += 1
    tag = '%s:%s:%d' % (os.path.basename(__file__), name, count[0])
    state = dict(up=False)
    def up(c):
        state['up'] = True
        log('up', tag)
    def boom(c):
        raise ValueError('boom')
    es = [OpaqueFunction(function=up)]
    end = EmitEvent(event=ShutdownEvent(reason='done'))
    one = [ReadyToTest()]
    if ready == 'nested':
        one = [GroupAction([GroupAction([ReadyToTest()])])]
    elif ready == 'late':
        one = [TimerAction(period=0.1, actions=[OpaqueFunction(function=lambda c: log('late', tag)), ReadyToTest()])]
    elif ready == 'deep':
        one = [TimerAction(period=0.1, actions=[GroupAction([OpaqueFunction(function=lambda c: log('late', tag)), ReadyToTest()])])]
    elif ready == 'two':
        one = [ReadyToTest(), GroupAction([ReadyToTest()])]
    elif ready == 'none':
        one = []
    if fate == 'early':
        es += [end, TimerAction(period=1000.0, actions=one)]
    elif fate == 'error':
        es += [OpaqueFunction(function=boom)] + one
    elif fate == 'fails':
        es += one + [RegisterEventHandler(OnShutdown(on_shutdown=[OpaqueFunction(function=boom)])), TimerAction(period=1000.0, actions=[])]
    else:
        es += one + ([TimerAction(period=1000.0, actions=[])] if auto else [TimerAction(period=0.3, actions=[end])])
    ld = launch.LaunchDescription(es)
    ld.tag, ld.state = tag, state
    return ld
def part(name, which, ld, ls, ends):
    log('part', name, which, ld.tag, ld.state['up'], not ls.task.done())
    if ends == which:
        if len(ld.tag) % 2:
            pytest.fail('problem of ' + name)
        raise AssertionError('problem of ' + name)
'''


def run(h):
    r = h.rng
    top = os.path.realpath(h.scratch)
    count = [0]

    def session(files, extra=()):
        count[0] += 1
        d = os.path.join(top, 'c31_%d' % count[0])
        os.makedirs(d)
        log = os.path.join(d, 'log.txt')
        open(log, 'w').close()
        for n, text in dict(files, **{'c31_report.py': REPORT}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(text)
        env = dict(os.environ, C31_LOG=log, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1', ROS_LOG_DIR=d, HOME=d,
                   PYTHONPATH=os.pathsep.join([d] + [p for p in sys.path if p]))
        env.pop('PYTEST_ADDOPTS', None)
        try:
            p = subprocess.run([sys.executable, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'launch_pytest.plugin', '-p', 'launch_testing.pytest.hooks',
                                '-p', 'c31_report', '--rootdir', d, '-c', '/dev/null', d, *extra],
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            out = p.stdout
        except subprocess.TimeoutExpired as e:
            raise AssertionError('the session does not end: %s' % (e.stdout or b'')[-500:])
        with open(log) as f:
            events = [json.loads(x) for x in f]
        shutil.rmtree(d)
        return events, p.returncode, out

    def reports(events):
        got = {}
        for e in events:
            if e[0] == 'report':
                got.setdefault(e[1].split('::', 1)[1], {})[e[2]] = e[3:]
            elif e[0] == 'collect':
                raise AssertionError('not collected: %s' % e[-1])
        return got

    def a_fixture(n, scope, plain=False):
        x = r.random()
        fate = 'normal' if plain or x < 0.75 else r.choice(['early', 'fails', 'error'])
        f = dict(name=n, scope=scope, params=r.choice([None, None, None, ['p', 'q']]),
                 idle=r.random() < 0.5, auto=r.random() < 0.8, ready=r.choice(['one', 'none', 'nested', 'late', 'deep']), fate=fate,
                 ret=r.choice(['ld', 'ld', '(ld, 1)', '[ld]']))
        if not plain and r.random() < 0.1:
            f['ready'] = 'two'
        elif not plain and r.random() < 0.1:
            f['ret'] = r.choice(['[]', 'None', '(1, ld)', '"text"'])
        if f['fate'] == 'early' and f['ready'] == 'none':
            f['ready'] = 'one'     # an action that is added comes at once
        if f['fate'] != 'normal':
            f['auto'] = True
        return f

    def broken(f):
        """Whether the launch of the fixture cannot be tested."""
        return f['ready'] == 'two' or f['ret'] in ('[]', 'None', '(1, ld)', '"text"') or f['fate'] in ('early', 'error')

    def a_test(n, fx):
        kind = r.choice(['function', 'coroutine', 'generator', 'asyncgen'])
        gens = kind in ('generator', 'asyncgen')
        t = dict(name='test_%d' % n, kind=kind, fx=fx, ends=r.choice(['pass', 'pass', 'pass', 'first'] + (['second', 'none', 'twice'] if gens else [])),
                 shutdown=not gens and r.random() < 0.3)
        t['x'] = not fx['params'] and r.random() < 0.3
        return t

    def source(fs, tests):
        s = HEAD
        for f in fs:
            opts = [] if f['idle'] else ['shutdown_when_idle=False']
            opts += [] if f['auto'] else ['auto_shutdown=False']
            opts += ['scope=%r' % f['scope']] if f['scope'] != 'function' else []
            opts += ['params=%r' % f['params']] if f['params'] else []
            s += '@launch_pytest.fixture%s\ndef %s(%s):\n    ld = describe(%r, %r, %r, %r)\n    return %s\n' % (
                '(%s)' % ', '.join(opts) if opts else '', f['name'], 'request' if f['params'] else '', f['name'], f['ready'], f['fate'], f['auto'], f['ret'])
        cls = None
        for t in tests:
            ind = ''
            if t.get('cls'):
                ind = '    '
                if cls != t['cls']:
                    s += 'class %s:\n' % t['cls']
            cls = t.get('cls')
            me = 'self, ' if cls else ''
            if t['kind'] == 'plain':
                s += '%sdef %s(%s):\n%s    log("part", %r, "plain", None, None, None)\n' % (ind, t['name'], me, ind, t['name'])
                continue
            f = t['fx']
            s += '%s@pytest.mark.launch(fixture=%s%s)\n' % (ind, f['name'], ', shutdown=True' if t['shutdown'] else '')
            s += '%s@pytest.mark.parametrize("x", [1, 2])\n' % ind if t['x'] else ''
            s += '%s%sdef %s(%s%s, launch_service%s):\n' % (ind, 'async ' if t['kind'] in ('coroutine', 'asyncgen') else '', t['name'], me, f['name'], ', x' if t['x'] else '')
            ld = f['name'] if f['ret'] == 'ld' else f['name'] + '[0]'
            body = ['part(%r, %%r, %s, launch_service, %r)' % (t['name'], ld, t['ends'])]
            lines = [body[0] % 'first']
            if t['kind'] in ('generator', 'asyncgen'):
                if t['ends'] == 'none':
                    lines += ['return', 'yield']
                else:
                    lines += ['yield', body[0] % 'second']
                if t['ends'] == 'twice':
                    lines += ['yield']
            elif t['kind'] == 'coroutine':
                lines.insert(0, 'await asyncio.sleep(0)')
            s += ''.join('%s    %s\n' % (ind, x) for x in lines)
        return s

    def one(i):
        files, all_tests = {}, []
        n = 0
        for k in range(r.randint(1, 3)):
            # fixtures of a scope other than function share the launch service of that scope
            scope = r.choice(['function', 'class', 'module'])
            fs = [a_fixture('ld_%d' % j, scope) for j in range(r.randint(1, 3) if scope == 'function' else 1)]
            tests = []
            for j in range(r.randint(3, 7)):
                n += 1
                if r.random() < 0.15:
                    tests.append(dict(name='test_%d' % n, kind='plain', fx=None, ends='pass', shutdown=False))
                else:
                    tests.append(a_test(n, r.choice(fs)))
            at = r.randint(0, len(tests)) if scope != 'class' else 0
            for t in tests[at:]:
                t['cls'] = 'TestA' if t is tests[at] or r.random() < 0.5 else 'TestB'
            tests = tests[:at] + sorted(tests[at:], key=lambda t: t['cls'])
            files['test_f%d.py' % k] = source(fs, tests)
            all_tests += tests
            for t in tests:
                t['file'] = 'test_f%d.py' % k
        key = json.dumps([{k: (v if k != 'fx' else v and list(v.values())) for k, v in t.items()} for t in all_tests])

        def f():
            events, rc, out = session(files)
            got = reports(events)
            if rc not in (0, 1):
                raise AssertionError('pytest: %s' % out[-500:])
            last = {}
            for t in all_tests:
                f = t['fx']
                base = ('%s::' % t['cls'] if t.get('cls') else '') + t['name']
                ids = [base + ('[%s]' % p if f and f['params'] else '') for p in (f['params'] if f and f['params'] else [None])]
                ids = [base + '[1]', base + '[2]'] if t.get('x') else ids
                gens = t['kind'] in ('generator', 'asyncgen')
                for x in ids:
                    two = gens and f['scope'] != 'function'
                    for second, name in ((False, x), (True, x + '[shutdown_test]')):
                        if second and not two:
                            continue
                        eq(name in got, True, 'run: %s' % name)
                        g = got.pop(name)
                        setup, call = g['setup'][0], g.get('call', ['-'])[0]
                        if f and broken(f):
                            eq((setup, call), ('failed', '-'), 'a launch that is never ready: %s' % name)
                            continue
                        eq(setup, 'passed', 'setup of %s: %s' % (name, g['setup'][1][-300:]))
                        bad = f and f['fate'] == 'fails'
                        if t['kind'] == 'plain':
                            want = 'passed'
                        elif not gens:
                            want = 'failed' if t['ends'] == 'first' or (bad and t['shutdown']) else 'passed'
                        elif not two:
                            want = 'passed' if t['ends'] == 'pass' and not bad else 'failed'
                        elif not second:
                            want = 'failed' if t['ends'] in ('first', 'none') else 'passed'
                        else:
                            want = 'skipped' if t['ends'] in ('first', 'none') else 'failed' if t['ends'] != 'pass' or bad else 'passed'
                        if bad and f['scope'] != 'function' and want != 'skipped' and (second or t['shutdown']):
                            # one test of the fixture at least meets the failure
                            last.setdefault((t['file'], f['name']), []).append(call)
                            continue
                        eq(call, want, '%s of %s: %s' % (t['kind'], name, g.get('call', ['', ''])[1][-300:]))
            eq(sorted(got), [], 'no other tests')
            up, seen, parts = set(), {}, [e for e in events if e[0] == 'part']
            for e in events:
                if e[0] == 'up':
                    eq(e[1] in up, False, 'launched once')
                    up.add(e[1])
            byname = {t['name']: t for t in all_tests}
            late = set()
            for e in events:
                if e[0] == 'late':
                    late.add(e[1])
                if e[0] != 'part':
                    continue
                _, name, which, tag, is_up, running = e
                t = byname[name]
                if t['kind'] == 'plain':
                    continue
                f = t['fx']
                eq(is_up and tag in up, True, 'a launch of its own: %s' % name)
                if f['ready'] in ('late', 'deep'):
                    eq(tag in late, True, 'once it is ready: %s' % name)
                if which == 'second' or t['shutdown']:
                    eq(running, False, 'after launch has finished: %s' % name)
                elif f['auto'] and f['fate'] == 'normal':
                    eq(running, True, 'while launch runs: %s' % name)
                if f['scope'] == 'function':
                    eq(seen.setdefault(tag, name), name, 'of its own')
                    if which == 'first':
                        eq((tag, 'used') in seen, False, 'a launch for each')
                        seen[tag, 'used'] = True
                elif f['scope'] == 'module' and not f['params']:
                    eq(seen.setdefault((t['file'], f['name']), tag), tag, 'one launch for all: %s' % name)
        h.case('session', key, f, 70)

    def launch_tests(i):
        params = r.choice([None, None, ['x', 'y']])
        outcomes = {n: r.choice(['pass', 'pass', 'pass', 'fail', 'error']) for n in ('test_a', 'test_b', 'test_after')}
        args = r.choice([[], ['--launch-args', 'a:=1'], ['--launch-args', 'a:=1', 'b:=x y', '--launch-args', 'c:=3']])
        marked = r.random() < 0.85
        early = r.random() < 0.2
        body = {'pass': 'pass', 'fail': 'self.assertEqual(1, 2, "message of %s")', 'error': 'raise ValueError("message of %s")'}
        lines = {n: (body[o] % n if '%' in body[o] else body[o]) for n, o in outcomes.items()}
        s = HEAD.replace('import launch, launch_pytest, pytest', 'import launch, pytest, launch_testing, unittest').replace('from launch_pytest.actions', 'from launch_testing.actions')
        s += '%s%sdef generate_test_description(%s):\n' % ('@pytest.mark.launch_test\n' if marked else '', "@launch_testing.parametrize('p', %r)\n" % params if params else '', 'p' if params else '')
        s += '    return launch.LaunchDescription([DeclareLaunchArgument(n, default_value="none") for n in "abc"] + [OpaqueFunction(function=lambda c: log(' \
             '"args", {n: c.launch_configurations.get(n) for n in "abc"})), %s, TimerAction(period=1000.0, actions=[])])\n' % (
                 'EmitEvent(event=ShutdownEvent(reason="r")), TimerAction(period=1000.0, actions=[ReadyToTest()])' if early else 'ReadyToTest()')
        s += 'class TestActive(unittest.TestCase):\n    def test_a(self):\n        log("ran", "test_a")\n        %s\n    def test_b(self):\n        log("ran", "test_b")\n        %s\n' % (lines['test_a'], lines['test_b'])
        s += '@launch_testing.post_shutdown_test()\nclass TestAfter(unittest.TestCase):\n    def test_after(self):\n        log("ran", "test_after")\n        %s\n' % lines['test_after']

        def f():
            events, rc, out = session({'test_lt.py': s}, args)
            got = reports([['report', e[1] if '::' in e[1] else e[1] + '::x', *e[2:]] if e[0] == 'report' else e for e in events])
            ran = [e[1] for e in events if e[0] == 'ran']
            if not marked:
                eq(sorted(got), ['TestActive::test_a', 'TestActive::test_b', 'TestAfter::test_after'], 'an ordinary file')
                return
            eq(len(got), 1, 'one item: %s %s' % (sorted(got), out[-300:]))
            g = list(got.values())[0]
            n = len(params or [1])
            failed = [x for x, o in outcomes.items() if o != 'pass' and not (early and x != 'test_after')]
            eq(g['call'][0], 'failed' if failed or early else 'passed', 'as all its tests: %s' % out[-600:])
            if not early:
                eq(ran, ['test_a', 'test_b', 'test_after'] * n, 'all tests of all runs')
                for x in failed:
                    eq(g['call'][1].count('message of %s' % x) >= n, True, 'every failure is told: %s' % g['call'][1])
            want = dict(a='none', b='none', c='none')
            want.update(x.split(':=') for x in args if ':=' in x)
            eq([e[1] for e in events if e[0] == 'args'], [want] * (1 if early else n), 'the arguments')
        h.case('launch_testing', (params, sorted(outcomes.items()), args, marked, early), f, 70)

    def orders():
        import launch_pytest.plugin as PL

        class Mark:
            def __init__(self, fx):
                self.kwargs = dict(fixture=fx)

        class Item:
            def __init__(self, fx, shutdown, pos):
                self.fx, self.pos = fx, pos
                self._launch_pytest_is_shutdown = shutdown

            def get_closest_marker(self, n):
                return Mark(self.fx) if self.fx is not None and n == 'launch' else None

            def getparent(self, cls):
                return 'one'
        fxs = []
        for n in 'ab':
            def ld():
                pass
            ld.__name__ = n
            ld._launch_pytest_fixture_options = dict(scope='module', auto_shutdown=True, shutdown_when_idle=True)
            fxs.append(ld)
        kinds = [(fx, s) for fx in fxs for s in (False, True)] + [(None, False)]
        for size in range(6):
            for c in itertools.product(kinds, repeat=size):
                items = [Item(fx, s, n) for n, (fx, s) in enumerate(c)]
                PL.pytest_collection_modifyitems(None, None, items)
                eq(sorted(x.pos for x in items), list(range(size)), 'the same tests')
                for n, x in enumerate(items):
                    for y in items[n + 1:]:
                        a, b = x._launch_pytest_is_shutdown, y._launch_pytest_is_shutdown
                        if x.fx is not None and x.fx is y.fx:
                            eq(a and not b, False, 'shutdown tests last')
                        if (x.fx is y.fx and a == b) or not (a or b):
                            eq(x.pos < y.pos, True, 'otherwise in the order given')
    h.case('orders', 'up to five', orders, 120)
    for i in range(h.n(16, 150)):
        one(i)
    for i in range(h.n(7, 60)):
        launch_tests(i)
