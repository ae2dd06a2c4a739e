"""C29: every test of a launch test runs in its phase, once per set of parameters, with the arguments it asks for."""
import functools
import sys
import types
import unittest

from .common import *
from pyvc.api import cut_while, invariant
import launch_testing
import launch_testing.launch_test as LT
import launch_testing.loader as LD
import launch_testing.markers as MK
import launch_testing.parse_arguments as PA
import launch_testing.print_arguments as PR
import launch_testing.test_runner as RUN
from launch_testing.actions import ReadyToTest
from .execlocal import tm

PZ = sys.modules['launch_testing.parametrize']
D = 'launch_testing.loader:'


# ---------------------------------------------------------------- parameters
@unit('C29', ['launch_testing.parametrize:parametrize', 'launch_testing.parametrize:_normalize_to_tuple',
              'launch_testing.ready_to_test_action_timeout:ready_to_test_action_timeout', 'launch_testing.markers:keep_alive'],
      assumes=('up to three sets of up to two parameters', 'functools'))
def parameters():
    names, text = [(['a'], 'a'), (['a', 'b'], 'a, b'), (['a', 'b'], ' b ,a,'), ([], ' ')][choose(4)]
    order = ['b', 'a'] if text.startswith(' b') else names
    calls = []

    def generate(a=None, b=None, ready_fn=None):
        calls.append((a, b, ready_fn))
        return len(calls)
    sets = [[fresh_str('value') for _ in names] for _ in range(choose(4))]
    single = len(names) == 1 and choose(2)
    values = [s[0] if single else tuple(s) for s in sets]
    inner, outer = choose(2), choose(2)
    f = generate
    if inner:
        f = do(do(launch_testing.ready_to_test_action_timeout, 7), do(MK.keep_alive, f))
    w = do(do(PZ.parametrize, text, (x for x in values) if choose(2) else values), f)
    if outer:
        w = do(do(launch_testing.ready_to_test_action_timeout, 9), do(MK.keep_alive, w))
    prove('it is known to be parametrized', getattr(w, '__parametrized__', False) is True)
    prove('a timeout of it', getattr(w, '__ready_to_test_action_timeout__', None) == (9 if outer else 7 if inner else None))
    for _ in range(2):
        got = list(do(w))
        prove('one description per set of parameters', len(got) == len(sets))
        for (fn, args), s in reversed(list(zip(got, sets))):
            want = dict(zip(order, s))
            prove('the parameters by name', list(args) == order and And(*[tm(args[n]) == tm(want[n]) for n in order]))
            calls.clear()
            r = do(fn, ready_fn='ready')
            prove('called with its own parameters', r == 1 and len(calls) == 1 and calls[0][2] == 'ready' and And(*[
                tm(v) == tm(want[n]) if n in want else z3.BoolVal(v is None) for n, v in zip('ab', calls[0])]))
            prove('the markers of the function, wherever they are put', getattr(fn, '__ready_to_test_action_timeout__', None) == (
                9 if outer else 7 if inner else None) and getattr(fn, '__markers__', {}).get('keep_alive', False) == bool(inner or outer))
            prove('and its name', fn.__name__ == 'generate')


# ---------------------------------------------------------------- loading
class Ran(Exception):
    pass


def module_of(log, params):
    m = types.ModuleType('tests_')

    def case(name, base=unittest.TestCase, tests=('test_a', 'test_b'), **k):
        def test(n):
            def f(self):
                log.append((name, n, self))
            f.__name__ = n
            return f
        c = type(name, (base,), {'__module__': 'tests_', **{n: test(n) for n in tests}, **k})
        setattr(m, name, c)
        return c
    case('Pre')
    post = case('Post', tests=('test_c',))
    do(do(launch_testing.post_shutdown_test), post)
    case('Later', post, tests=('test_d',))
    case('Other', tests=('helper',))

    def generate(p=None, q=None):
        return None
    if params is None:
        m.generate_test_description = generate
    else:
        m.generate_test_description = do(do(PZ.parametrize, 'p, q', params), generate)
    return m, generate


@unit('C29', [D + x for x in ('LoadTestsFromPythonModule', 'PreShutdownTestLoader', 'PostShutdownTestLoader', '_make_loader', 'TestRun.__init__',
                              'TestRun.all_cases', 'TestRun._format_params', 'TestRun.__str__', '_iterate_tests_in_test_suite', '_iterate_test_suites')]
      + ['launch_testing.decorator:post_shutdown_test'],
      assumes=('unittest loads the cases of a module (real); four classes, up to two sets of parameters',))
def loading():
    log = []
    params = [None, [], [(1, 'x')], [(1, 'x'), (2, 'y z')]][choose(4)]
    m, generate = module_of(log, params)
    if choose(2):
        generate.__ready_to_test_action_timeout__ = 3
        if params is not None:
            m.generate_test_description = do(do(PZ.parametrize, 'p, q', params), generate)
    timeout = getattr(generate, '__ready_to_test_action_timeout__', 15)
    runs = list(do(LD.LoadTestsFromPythonModule, m, name='n'))
    prove('one run per set of parameters', len(runs) == (1 if params is None else len(params)))
    seen = set()
    for i, run in enumerate(runs):
        suffix = '' if params is None else '[%s]' % ', '.join(map(str, params[i]))
        prove('named by its parameters', do(str, run) == 'n' + suffix or str(run) == 'n' + suffix)
        prove('its parameters', run.param_args == ({} if params is None else dict(zip('pq', params[i]))))
        prove('its timeout and markers', run.timeout == timeout and run.markers == {})
        pre, post = (sorted(LD._iterate_tests_in_test_suite(s), key=lambda t: t.id()) for s in (run.pre_shutdown_tests, run.post_shutdown_tests))
        prove('each test in its phase, once', [t.id() for t in pre] == ['tests_.Pre.test_' + x + suffix for x in 'ab'] and
              [t.id() for t in post] == ['tests_.Later.test_c' + suffix, 'tests_.Later.test_d' + suffix, 'tests_.Post.test_c' + suffix],
              repr([t.id() for t in pre + post]))
        prove('all of them', sorted(map(id, do(run.all_cases))) == sorted(map(id, pre + post)))
        prove('of a class of this run alone', not seen & {t.__class__ for t in pre + post} and all(
            t.__class__ is not getattr(m, t.__class__.__name__) and isinstance(t, getattr(m, t.__class__.__name__)) for t in pre + post))
        seen |= {t.__class__ for t in pre + post}
        for t in pre + post:
            log.clear()
            getattr(t, t._testMethodName)()
            n = t._testMethodName[:6]
            prove('each runs its own test', len(log) == 1 and log[0][1] == n and log[0][2] is t)
        for s in (run.pre_shutdown_tests, run.post_shutdown_tests):
            res = unittest.TestResult()
            log.clear()
            s.run(res)
            prove('they can be run and are kept', res.testsRun == len(log) == (2 if s is run.pre_shutdown_tests else 3) and
                  all(t is not None for t in LD._iterate_tests_in_test_suite(s)))
    k, r = outcome(do, do(launch_testing.post_shutdown_test), generate)
    prove('only classes are of a phase', k == 'raise' and isinstance(r, TypeError))


# ---------------------------------------------------------------- arguments of tests
@unit('C29', [D + x for x in ('TestRun.bind', '_bind_test_args_to_tests', '_partially_bind_matching_args', '_give_attribute_to_tests',
                              '_iterate_test_classes_in_test_suite', '_iterate_tests_in_test_suite')],
      assumes=('inspect.signature (real): the parameters of a function', 'two classes of cases; any values'))
def binding():
    log = []
    deco = choose(3)

    class A(unittest.TestCase):
        def setUp(self, one):
            log.append(('setUp', self, one))

        def tearDown(self, two=None):
            log.append(('tearDown', self, two))

        @classmethod
        def setUpClass(cls, two, one):
            log.append(('setUpClass', cls, two, one))

        @classmethod
        def tearDownClass(cls):
            log.append(('tearDownClass', cls))

        def test_a(self):
            log.append(('test_a', self))

        def test_b(self, two, *, one, other='other'):
            log.append(('test_b', self, two, one, other))
    if deco == 1:
        A.test_b = unittest.expectedFailure(A.test_b)
    elif deco == 2:
        keep = A.test_b

        @functools.wraps(keep)
        def wrapper(*a, **k):
            return keep(*a, **k)
        wrapper.__unittest_skip__ = False
        A.test_b = wrapper

    class B(A):
        def test_a(self, three):
            log.append(('B.test_a', self, three))
    if deco == 0 and choose(2):
        B.__name__ = 'A'        # a class of the same name, of another file say
    one, two, three = fresh_str('one'), fresh_str('two'), fresh_str('three')
    m = types.ModuleType('m')
    m.A, m.B = A, B
    patch(A, '__module__', 'm')
    m.generate_test_description = lambda: None
    run, = do(LD.LoadTestsFromPythonModule, m)
    attr = fresh_str('attribute')
    warned = []
    patch(LD, 'warnings', Facade(LD.warnings, warn=lambda *a, **k: warned.append(a)))
    do(run.bind, run.pre_shutdown_tests, injected_attributes={'info': attr}, injected_args={'one': one, 'two': two, 'three': three, 'self_': 0})
    same_ = lambda a, b: a is b or tm(a) == tm(b)   # noqa: E731
    tests = list(LD._iterate_tests_in_test_suite(run.pre_shutdown_tests))
    prove('every test', len(tests) == 4)
    for t in tests:
        is_b = isinstance(t, B)
        for f, want in ((t.setUp, [one]), (t.tearDown, [two]), (t.__class__.setUpClass, [two, one]), (t.__class__.tearDownClass, []),
                        (getattr(t, t._testMethodName), [two, one, 'other'] if t._testMethodName == 'test_b' else [three] if is_b else [])):
            log.clear()
            k, r = outcome(do, f)
            prove('called with the arguments it asks for, by name', k == 'ok' and len(log) == 1 and log[0][1] is (
                t.__class__ if 'Class' in log[0][0] else t) and len(log[0]) == 2 + len(want) and And(*[
                    z3.BoolVal(x) if isinstance(x, bool) else x for x in map(same_, log[0][2:], want)]), repr(r))
        prove('attributes', same_(t.info, attr))
        f = getattr(t, t._testMethodName)
        prove('what marks the test', getattr(f, '__unittest_expecting_failure__', False) is (deco == 1 and t._testMethodName == 'test_b'))
    prove('the tests of the module are as they were', not hasattr(A, 'info') and 'test_b' in vars(A) and isinstance(vars(A)['setUpClass'], classmethod))


# ---------------------------------------------------------------- readiness
class Node(Fake):
    def __init__(self, subs=(), conditional=()):
        self.subs, self.conditional = subs, conditional

    def describe_sub_entities(self):
        return list(self.subs)

    def describe_conditional_sub_entities(self):
        return [('when', list(x)) for x in self.conditional]


@unit('C29', [D + '_normalize_ld', D + 'TestRun.get_launch_description', D + 'TestRun.markers'],
      assumes=('sub-entities of an entity (C26); up to three levels',))
def ready():
    where = choose(7)
    r1, r2 = new(ReadyToTest), new(ReadyToTest)
    es = [[r1], [Node(), r1, r2], [Node([Node(), Node([r1])]), r2], [Node(conditional=[[Node()], [r1]])],
          [Node(conditional=[[Node([r1, r2])]]), Node()], [Node([Node([Node(conditional=[[r1]])])])], [Node([Node()]), Node(conditional=[[]])]][where]

    class LDesc(Fake):
        entities = es
    ld = LDesc()
    extra = {'x': 1}
    tup, kw = choose(2), choose(2)
    given = []

    def fn(**k):
        given.append(k)
        return (ld, extra) if tup else ld
    run = new(LD.TestRun, 'n', fn, {}, unittest.TestSuite(), unittest.TestSuite())
    called = []
    ready_ = lambda: called.append(1)   # noqa: E731
    k, r = outcome(do, run.normalized_test_description, ready_fn=ready_, **dict(p=1) if kw else {})
    prove('the description is made once, with its arguments', given == [dict(p=1) if kw else {}])
    if where == 6:
        prove('a description that is never ready is rejected', k == 'raise' and 'ReadyToTest' in str(r), repr(r))
        return
    prove('the description and the context for the tests', k == 'ok' and r[0] is ld and r[1] == (extra if tup else {}) and len(r) == 2, repr(r))
    do(r1.execute, None)
    prove('ready when the action is executed', called == [1])
    do(r2.execute, None)
    prove('and by that action only', called == [1])
    prove('just the description', do(run.get_launch_description) is ld)


# ---------------------------------------------------------------- retries
ProblemK = ObjK('problem', type('Problem', (SymObj,), {}))


@unit('C29', ['launch_testing.markers:retry_on_failure'], assumes=('an attempt returns or raises, with or without recording problems of subtests',))
def retry():
    """Any number of attempts, in a test run in which anything has been recorded before."""
    cut_while(lambda site: 'retry_on_failure' in site)
    times = fresh_int('times')
    E().assume(times.term >= 1)
    delay = [None, 0.5][choose(2)]
    is_case = choose(2)
    has_result = choose(2)

    class Outcome(Fake):
        def __getattr__(self, n):
            raise AttributeError(n)

    class Case(unittest.TestCase if is_case else object):
        def __init__(self):
            pass
    res, out, g = Outcome(), Outcome(), Fake()
    for x in (res, out, g):
        track(x)
    before = {}
    for n in ('errors', 'failures'):
        s = fresh_seq(n, ProblemK)
        rt.setattr_(res, n, s)
        before[n] = s.term
    rt.setattr_(out, 'success', True)
    rt.setattr_(out, 'result', res if has_result else None)
    rt.setattr_(g, 'attempts', 0)
    rt.setattr_(g, 'slept', 0)
    me = Case()
    me._outcome = out
    kept = lambda: And(*[getattr(res, n).as_term(ProblemK) == before[n] for n in before])   # noqa: E731
    p = E().path
    p.last = None

    class Raised(Exception):
        pass
    result = object()
    with_problems = {}

    def test(self, a, *, b):
        prove('called as the test is', self is me and a == 1 and b == 2)
        prove('tried again only if it failed', p.last in (None, 'failed'))
        prove('not tried more often than asked', tm(g.attempts) < times.term)
        prove('each attempt starts afresh: what other tests recorded is kept, what failed attempts recorded is not', And(kept(), tm(out.success)))
        if p.last:
            prove('after the delay', tm(g.slept) == (tm(g.attempts) if delay else 0))
        rt.setattr_(g, 'attempts', IntK.wrap(tm(g.attempts) + 1))
        if has_result and choose(2):
            for n in before:
                more = fresh_seq('%s of an attempt' % n, ProblemK)
                getattr(res, n).extend(more)
                with_problems[n] = more.term
            rt.setattr_(out, 'success', False)
            sub = True
        else:
            with_problems.clear()
            sub = False
        how = choose(3)
        if how == 1:
            p.last = 'failed'
            raise AssertionError('no')
        if how == 2:
            p.last = 'raised'
            raise Raised()
        p.last = 'failed' if sub and is_case else 'passed'
        return result

    def sleep(s):
        prove('the delay asked for', delay is not None and s == delay)
        rt.setattr_(g, 'slept', IntK.wrap(tm(g.slept) + 1))
    patch(MK, 'time', Facade(MK.time, sleep=sleep))
    E().path.ghosts.append(('attempts left', lambda: times.term - tm(g.attempts)))
    E().path.ghosts.append(('attempts', lambda: tm(g.attempts)))
    invariant('attempts', lambda k: tm(g.attempts) == k)
    invariant('one attempt left', lambda k: tm(g.attempts) < times.term)
    invariant('slept', lambda k: tm(g.slept) == (k if delay else 0))
    invariant('afresh', lambda k: And(kept(), tm(out.success)))
    w = do(do(MK.retry_on_failure, times=times, delay=delay), test)
    k, r = outcome(do, w, me, 1, b=2)
    prove('an attempt that passes is the outcome', (k == 'ok' and r is result) if p.last == 'passed' else True, repr(r))
    if p.last == 'raised':
        prove('an error of the test is its outcome at once', k == 'raise' and isinstance(r, Raised), repr(r))
    if p.last == 'failed':
        prove('all attempts were made', tm(g.attempts) == times.term)
        prove('the failure of the last is the outcome', isinstance(r, AssertionError) if k == 'raise' else out.success is False, repr(r))
    prove('recorded: what was before and what the last attempt recorded', And(*[
        getattr(res, n).as_term(ProblemK) == (z3.Concat(before[n], with_problems[n]) if n in with_problems else before[n]) for n in before]))


# ---------------------------------------------------------------- the command line
@unit('C29', ['launch_testing.parse_arguments:parse_launch_arguments'])
def arguments():
    """Any number of arguments with any text."""
    args = fresh_seq('arguments', StrK)
    SEP = StringVal(':=')

    def cut(x):
        i = z3.IndexOf(x, SEP, 0)
        return z3.SubString(x, 0, i), z3.SubString(x, i + 2, Length(x) - i - 2)

    def good(x):
        i = z3.IndexOf(x, SEP, 0)      # a name before it, and a value after it
        return And(z3.Contains(x, SEP), i > 0, i + 2 < Length(x))
    ok = ForAllPrefix('well formed', args, good)
    empty = empty_dict(StrK, StrK)
    F = DictFold('arguments', args, empty, lambda a, v, x: (z3.Store(a, cut(x)[0], True), z3.Store(v, cut(x)[0], cut(x)[1])))
    k, r = outcome(do, PA.parse_launch_arguments, args)
    if k == 'raise':
        prove('an error only for a malformed argument', And(z3.BoolVal(isinstance(r, RuntimeError)), Not(ok.full)), repr(r))
        return
    prove('every argument is well formed', ok.full)
    same('each name with its last value', r.d if hasattr(r, 'd') else rt.call(dict, r), F.result)


@unit('C29', ['launch_testing.print_arguments:print_arguments_of_launch_description'], assumes=('up to three arguments, with any name and description',))
def show():
    lines = []
    patch(PR, 'print', lambda *a: lines.append(a[0] if len(a) == 1 else None))
    n = choose(4)

    class Token(Fake):
        def __init__(self, d):
            self.d = d

        def describe(self):
            return self.d

    class Arg(Fake):
        pass
    made = []
    for i in range(n):
        a = Arg()
        a.name, a.description = fresh_str('name'), fresh_str('description')
        a._conditionally_included = bool(choose(2))
        a.default_value = [None, [], [Token(fresh_str('default'))], [Token(fresh_str('default')), Token(fresh_str('more'))]][choose(4) if i < 2 else 2]
        made.append(a)

    class LD_(Fake):
        def get_launch_arguments(self, *a, **k):
            return made
    do(PR.print_arguments_of_launch_description, launch_description=LD_())
    text = lines[1:1 + n]
    prove('a line for each argument', len(lines) == 1 + n + (1 if n == 0 or any(a._conditionally_included for a in made) else 0), repr(lines))
    for a, t in zip(made, text):
        want = StringVal("\n    '") + tm(a.name) + StringVal("':" + ('*' if a._conditionally_included else '') + '\n        ') + tm(a.description)
        if a.default_value is not None:
            want = want + StringVal('\n        (default: ')
            for i, x in enumerate(a.default_value):
                want = want + StringVal(' + ') + tm(x.d) if i else want + tm(x.d)
            want = want + StringVal(')')
        prove('its name, its description, its default value, and whether it is conditional', tm(t) == want)


# ---------------------------------------------------------------- a launch test
@unit('C29', ['launch_testing.test_runner:LaunchTestRunner.validate'], assumes=('inspect (real): the parameters of a function', 'functions of up to two parameters'))
def validate():
    def none():
        raise Exception('called')

    def one(a):
        raise Exception('called')

    def two(a, *, b):
        raise Exception('called')

    def default(a=1):
        raise Exception('called')
    fn = [none, one, two, default][choose(4)]
    wants = {none: set(), one: {'a'}, two: {'a', 'b'}, default: {'a'}}[fn]
    given = [set(), {'a'}, {'a', 'b'}, {'b'}, {'c'}][choose(5)]
    values = {n: 1 for n in given}
    f = functools.partial(fn, **values)
    functools.update_wrapper(f, fn)
    runs = [new(LD.TestRun, 'n', f if given or choose(2) else fn, values, unittest.TestSuite(), unittest.TestSuite())]
    if choose(2):
        runs.insert(0, new(LD.TestRun, 'n', lambda: None, {}, unittest.TestSuite(), unittest.TestSuite()))
    r = new(RUN.LaunchTestRunner, runs)
    k, e = outcome(do, r.validate)
    prove('exactly the parameters of the function are given', (k == 'ok') == (given == wants), repr(e))


@unit('C29', ['launch_testing.launch_test:run', 'launch_testing.launch_test:_load_python_file_as_module'],
      assumes=('LoadTestsFromPythonModule (unit loading), LaunchTestRunner (C25), unittestResultsToXml (C25)', 'up to three runs'))
def launch_test():
    import os as real_os
    log = []

    class Args(Fake):
        pass
    a = Args()
    a.launch_test_file = '/x/y_test.py'
    a.package_name = [None, 'pkg'][choose(2)]
    a.verbose, a.show_args = bool(choose(2)), bool(choose(2))
    a.launch_arguments = [['a:=b'], []][choose(2)]
    a.xmlpath = [None, '/tmp/r.xml'][choose(2)]
    package = a.package_name or 'y_test'
    exists = choose(2)

    class Exit(Exception):
        pass

    class ArgParser(Fake):
        def error(self, m):
            log.append('error')
            raise Exit()
    mod = object()
    n = choose(4)
    oks = [fresh_bool('successful') for _ in range(n)]

    class Result(Fake):
        def __init__(self, b):
            self.b = b

        def wasSuccessful(self):
            return self.b
    description = object()

    class Run(Fake):
        def get_launch_description(self):
            return description
    runs = [Run() for _ in range(n)] or [Run()]
    results = VDict(items={r: Result(b) for r, b in zip(runs, oks)})

    class Runner(Fake):
        def __init__(self, test_runs, launch_file_arguments, debug):
            prove('the runs of the file, with the arguments given', test_runs is runs and launch_file_arguments is a.launch_arguments and debug is a.verbose)
            log.append('runner')

        def validate(self):
            log.append('validate')

        def run(self):
            log.append('run')
            return results

    class Report(Fake):
        def write(self, path, encoding=None, xml_declaration=None):
            prove('written where asked', path == a.xmlpath and encoding in ('utf-8', 'UTF-8', 'utf8') and xml_declaration is True)
            log.append('written')
    patch(LT, 'os', Facade(real_os, path=Facade(real_os.path, isfile=lambda p: bool(exists))))

    def load(name, path):
        prove('the module of the file', path == '/x/y_test.py' and name == package)
        log.append('load')
        return mod
    use_contract(LT._load_python_file_as_module, load)

    def tests(m, *, name='launch_tests'):
        prove('the tests of the file', m is mod and name == package + '.y_test.launch_tests')
        return runs
    use_contract(LD.LoadTestsFromPythonModule, tests)
    use_contract(PR.print_arguments_of_launch_description, lambda *, launch_description: log.append(('shown', launch_description is description)))
    import launch_testing.junitxml as JX

    def report(test_results, name):
        prove('a report of the results', test_results is results and name == package + '.y_test')
        return Report()
    use_contract(JX.unittestResultsToXml, report)
    k, r = outcome(do, LT.run, ArgParser(), a, test_runner_cls=Runner)
    if not exists:
        prove('a file that does not exist is an error', k == 'raise' and isinstance(r, Exit) and log == ['error'])
        return
    if a.show_args:
        prove('the arguments are shown and nothing is run', k == 'ok' and not r and log == ['load', 'runner', 'validate', ('shown', True)], repr(log))
        return
    prove('valid tests are run once, and the report written if asked', log == ['load', 'runner', 'validate', 'run'] + ['written'] * bool(a.xmlpath), repr(log))
    prove('success exactly if every run succeeded', k == 'ok' and r in (0, 1) and (r == 0) == And(*[tm(b) for b in oks]), repr(r))


@unit('C29', ['launch_testing.launch_test:main', 'launch_testing.launch_test:parse_arguments', 'launch_testing.launch_test:add_arguments'],
      assumes=('argparse reads a command line as its options say (run as it is)',))
def command_line():
    """What is written on the command line is what is run, and its result is the return code."""
    quiet()
    result, error, seen = fresh_int('result'), RuntimeError('bad'), []
    how = choose(3)             # returns a code, nothing (as for the arguments shown), or raises

    def run_(parser, args, *a, **k):
        seen.append(args)
        if how == 2:
            raise error
        return result if how == 0 else None
    use_contract(LT.run, run_)
    verbose, show, short = choose(2), choose(2), choose(2)
    package, xml = ('pkg' if choose(2) else None), ('/x.xml' if choose(2) else None)
    given = ['a:=b', 'c:=d e', 'a:=1'][:choose(4)]
    argv = ['launch_test']
    if verbose:
        argv.append('-v' if short else '--verbose')
    if show:
        argv.append('-s' if short else '--show-arguments')
    if package:
        argv += ['--package-name', package]
    if xml:
        argv += ['--junit-xml=' + xml]
    argv += ['t.py', *given]
    import sys

    def leave(code=None):
        raise SystemExit(code)
    patch(sys, 'argv', argv)
    patch(LT, 'sys', Facade(sys, exit=leave))
    patch(LT, 'logging', Facade(LT.logging, basicConfig=lambda **k: None))
    import contextlib
    import io
    with contextlib.redirect_stderr(io.StringIO()):
        k, r = outcome(do, LT.main)
    prove('it ends by exiting', k == 'raise' and isinstance(r, SystemExit), repr(r))
    prove('one run', len(seen) == 1)
    if k != 'raise' or not isinstance(r, SystemExit) or len(seen) != 1:
        return
    if how == 2:
        prove('an error is a failure', type(r.code) in (int, str) and r.code not in (0, ''))
    elif how == 1:
        prove('nothing more to do is no failure', r.code in (None, 0))
    else:
        prove('the result is the return code', IntK.unwrap(r.code) == result.term)
    a = seen[0]
    prove('the options', (a.launch_test_file, bool(a.verbose), bool(a.show_args), a.package_name, a.xmlpath, list(a.launch_arguments))
          == ('t.py', bool(verbose), bool(show), package, xml, given), repr(a))
