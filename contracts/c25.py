"""C25: aggregation of test results and readiness."""
from .common import *
import threading
import unittest
import xml.etree.ElementTree as RealET

import launch_testing.actions.ready as RD
import launch_testing.junitxml as JX
import launch_testing.ready_aggregator as RA
import launch_testing.test_result as TR
import launch_testing.test_runner as RUN

SubTest = unittest.case._SubTest
SUB, CASE_OF = uf('is a subtest', IntS, BoolS), uf('case of a subtest', IntS, IntS)


class Case(SymObj):
    """A test case, or a subtest of one."""

    @property
    def __class__(self):
        return SubTest if E().branch(SUB(self.term)) else unittest.TestCase

    @property
    def test_case(self):
        prove('only subtests have a case', SUB(self.term))
        return CaseK.wrap(CASE_OF(self.term))

    def id(self):
        return E().path.case_id


CaseK = ObjK('case', Case)
OutK = TupK(CaseK, StrK, name='outcome')
LISTS = (('failures', OutK), ('errors', OutK), ('skipped', OutK), ('expectedFailures', OutK), ('unexpectedSuccesses', CaseK))


def OUT(o):
    """The case an outcome belongs to."""
    t = OutK.sort.accessor(0, 0)(o)
    return If(SUB(t), CASE_OF(t), t)


def MSG(o):
    return OutK.sort.accessor(0, 1)(o)


# ---------------------------------------------------------------- results
R = 'launch_testing.test_result:'


def any_result(r, name):
    """Any outcomes of a finished run."""
    terms = {}
    for n, k in LISTS:
        s = fresh_seq('%s of %s' % (n, name), k)
        rt.setattr_(r, n, s)
        terms[n] = s.term
    ran = fresh_int('run in %s' % name)
    rt.setattr_(r, 'testsRun', ran)
    terms['testsRun'] = IntK.unwrap(ran)
    return terms


def ran_cases(r, cases):
    """These cases were started and stopped."""
    for c in cases:
        ticks = [c.end, c.start]
        patch_global('time', Facade(TR.time, time=ticks.pop))
        rt.call(r.startTest, c)
        rt.call(r.stopTest, c)
        prove('a case has a start and an end', not ticks)


class Named(Fake):
    def __init__(self, name, start=None, end=None):
        self.name, self.start, self.end = name, start, end

    def __repr__(self):
        return self.name


def successful(r):
    f = TR.TestResult.wasSuccessful
    if f is unittest.TestResult.wasSuccessful:
        return z3.And(*[Length(getattr(r, n).as_term(k)) == 0 for n, k in LISTS if n in ('failures', 'errors', 'unexpectedSuccesses')])
    v = do(r.wasSuccessful)
    return lift(v) if not isinstance(v, bool) else z3.BoolVal(v)


@unit('C25', [R + 'TestResult.append', R + 'TestResult.__init__', R + 'TestResult.testCases', R + 'TestResult.testTimes'],
      assumes=('unittest.TestResult.wasSuccessful (unless it is overridden): no failure, error or unexpected success',
               'test cases are only keys: one of each of three kinds (only here, only there, both) stands for any number'))
def append():
    a, b = [new(TR.TestResult, None, None, 1) for _ in 'ab']
    mine, both, other = [Named(n, fresh_real('start ' + n), fresh_real('end ' + n)) for n in ('mine', 'both', 'other')]
    first = [c for c in (mine, both) if choose(2)]
    second = [c for c in (both, other) if choose(2)]
    ran_cases(a, first)
    ran_cases(b, second)
    ta, tb = any_result(a, 'a'), any_result(b, 'b')
    fine = z3.And(successful(a), successful(b))
    rt.call(a.append, b)
    for n, k in LISTS:
        prove('every %s of both parts, once' % n, getattr(a, n).as_term(k) == Concat(ta[n], tb[n]))
        prove('the part keeps its %s' % n, getattr(b, n).as_term(k) == tb[n])
    prove('every run is counted once', IntK.unwrap(a.testsRun) == ta['testsRun'] + tb['testsRun'])
    prove('the part keeps its count', IntK.unwrap(b.testsRun) == tb['testsRun'])
    prove('successful exactly if both parts are', successful(a) == fine)
    want = first + [c for c in second if c not in first]
    prove('every case of both parts, once', list(do(lambda: a.testCases)) == want)
    prove('the part keeps its cases', list(do(lambda: b.testCases)) == second)
    times = do(lambda: a.testTimes)
    prove('every case has a duration', list(times) == want)
    for c in want:
        prove('it is the time between start and end', RealK.unwrap(times[c]) == RealK.unwrap(c.end) - RealK.unwrap(c.start))


@unit('C25', [R + 'TestResult.startTest', R + 'TestResult.stopTest', R + 'TestResult.__init__', R + 'TestResult.testTimes',
              R + 'TestResult.testCases'],
      assumes=('unittest.TextTestResult: its own code (startTest counts the run)',
               'time.time: the clock does not go back during a test'))
def timing():
    class Clock(Fake):
        def __init__(self):
            self.log = []

        def __call__(self):
            t = fresh_real('now')
            if self.log:
                E().assume(t.term >= self.log[-1].term)
            self.log.append(t)
            return t
    clock = Clock()
    patch_global('time', Facade(TR.time, time=clock))
    r = new(TR.TestResult, None, None, 1)
    prove('no case in the beginning', list(do(lambda: r.testCases)) == [])
    n = choose(3) + 1
    cases = [Named('case %d' % i) for i in range(n)]
    for i, c in enumerate(cases):
        rt.call(r.startTest, c)
        prove('a started test is one of the cases', list(do(lambda: r.testCases)) == cases[:i + 1])
        rt.call(r.stopTest, c)
        prove('a test is counted once', r.testsRun == i + 1)
    prove('the clock is read at both ends', len(clock.log) == 2 * n)
    times = do(lambda: r.testTimes)
    for i, c in enumerate(cases):
        t = RealK.unwrap(times[c])
        prove('the duration of each case', And(t == clock.log[2 * i + 1].term - clock.log[2 * i].term, t >= 0))


class Run(Fake):
    """A test run with any number of cases."""

    def __init__(self, cases):
        self.cases = cases

    def all_cases(self):
        return self.cases


@unit('C25', [R + 'FailResult.__init__', R + 'FailResult.testCases', R + 'FailResult.wasSuccessful',
              R + 'SkipResult.__init__', R + 'SkipResult.testCases', R + 'SkipResult.wasSuccessful'],
      assumes=('unittest.TestResult: __init__ starts with empty lists and no runs; addFailure and addSkip append (case, text)',))
def whole_runs():
    cases = fresh_seq('cases', CaseK)
    said = fresh_str('why')

    def init(self, *a, **k):
        for n, kind in LISTS:
            rt.setattr_(self, n, VList(kind=kind, term=Empty(z3.SeqSort(kind.sort))))
        rt.setattr_(self, 'testsRun', IntK.wrap(z3.IntVal(0)))

    def fail_(self, case, err):
        prove('the failure says why', err[0] is Exception and err[1].args == (said,))
        rt.call(self.failures.append, (case, said))

    def skip_(self, case, reason):
        prove('the skip says why', reason is said)
        rt.call(self.skipped.append, (case, said))
    use_contract(unittest.TestResult.__init__, init)
    use_contract(unittest.TestResult.addFailure, fail_)
    use_contract(unittest.TestResult.addSkip, skip_)
    failing = choose(2)
    want = MapFold('outcomes', cases, lambda c: OutK.mk(c, said.term), OutK)
    src = cases if choose(2) else rt.call(iter, cases)
    r = new(TR.FailResult, Run(src), said) if failing else new(TR.SkipResult, Run(src), said)
    for n, kind in LISTS:
        got = getattr(r, n).as_term(kind)
        if n == ('failures' if failing else 'skipped'):
            prove('every case %s' % ('fails' if failing else 'is skipped'), got == want.full)
        else:
            prove('no other outcome', Length(got) == 0)
    prove('every case is counted', IntK.unwrap(r.testsRun) == Length(cases.term))
    ok = do(r.wasSuccessful)
    prove('successful unless it failed', ok is (not failing))
    back = MapFold('cases of outcomes', want.result, lambda o: OutK.sort.accessor(0, 0)(o), CaseK)
    prove('its cases are those of its outcomes', rt.to_vlist(do(lambda: r.testCases)).as_term(CaseK) == back.full)


# ---------------------------------------------------------------- report
class El(Fake):
    """Contract of ElementTree.Element: attributes and children in the order they were added."""

    def __init__(self, tag, attrib={}, **extra):
        self.tag, self.attrs = tag, {}
        self.children = VList([])
        track(self)

    def set(self, k, v):
        prove('attributes are strings', isinstance(v, str))
        self.attrs[k] = v

    def append(self, child):
        rt.call(self.children.append, child)


class ElK_(TupK):
    """Elements as (tag, message, what they describe)."""

    def unwrap(self, py):
        if isinstance(py, El):
            if py.tag in ('failure', 'error', 'skipped'):
                return self.sort.mk(z3.StringVal(py.tag), StrK.unwrap(py.attrs['message']), z3.IntVal(-1))
            raise Unsupported('another kind of element: %s' % py.tag)
        if isinstance(py, Described):
            return self.sort.mk(z3.StringVal(py.tag), z3.StringVal(''), py.term)
        return super().unwrap(py)

    def wrap(self, term):
        return super().wrap(term)


ElK = El.vc_kind = ElK_(StrK, StrK, IntK, name='element')
XML = uf('escaped', StrS, StrS)


class Described(Fake):
    """The element of a case or of a result."""

    def __init__(self, tag, term):
        self.tag, self.term = tag, term


Described.vc_kind = ElK

def el(tag, msg):
    return ElK.mk(z3.StringVal(tag), msg, z3.IntVal(-1))


class Duration(Fake):
    """Any amount of time."""

    def _same(self, *a):
        return self
    __add__ = __radd__ = __round__ = _same

    def __str__(self):
        return '1.5'


class Times(Fake):
    def get(self, case, default=None):
        return Duration() if choose(2) else default

    def values(self):
        return VList([Duration()])


class Result(Fake):
    """Any test result."""

    def __init__(self, name='', **k):
        self.testTimes = Times()
        for n, kind in LISTS:
            setattr(self, n, fresh_seq(n + name, kind))
        self.testsRun = fresh_int('tests run' + name)
        E().assume(self.testsRun.term >= 0)
        self.__dict__.update(k)


def report_contracts():
    patch(JX, 'ET', Facade(RealET, Element=El, ElementTree=lambda e: e))

    def text(s):
        prove('texts are escaped', isinstance(s, str))
        return StrK.wrap(XML(StrK.unwrap(s)))
    use_contract(JX._toXmlText, text)
    E().path.nonneg = True


def children(x):
    return x.children.as_term(ElK) if x.children.items is None or x.children.items else Empty(z3.SeqSort(ElK.sort))


TEXTS = ('_toXmlText: characters XML cannot contain are escaped, others kept (bounded run)',)
IDS = ('pkg.mod.Class.test_a', 'test_a', 'm.C.test_b[1.5, a b]', 'setUpClass (m.C)', 'm.C.test_c[a]b [c]', '')
NAMES = (('pkg.mod.Class', 'test_a'), ('', 'test_a'), ('m.C', 'test_b[1.5, a b]'), ('', 'setUpClass (m.C)'),
         ('m.C', 'test_c[a]b [c]'), ('', ''))


@unit('C25', ['launch_testing.junitxml:unittestCaseToXml', 'launch_testing.junitxml:_outcomeTestCase'],
      assumes=TEXTS + ('names of cases: six shapes of id (any in the bounded run)',
                       'xml.etree.ElementTree: elements keep their attributes and children'))
def one_case():
    report_contracts()
    res = Result()
    i = choose(len(IDS))
    E().path.case_id = IDS[i]
    case_ = fresh_obj('case', CaseK)
    assume(Not(SUB(case_.term)))
    Contains = z3.Contains

    def those(name, seq, tag, init):
        return Fold(name, seq, init, lambda acc, o: If(OUT(o) == case_.term, Concat(acc, Unit(el(tag, XML(MSG(o))))), acc))
    empty = Empty(z3.SeqSort(ElK.sort))
    f = those('failed', res.failures, 'failure', empty)
    un = If(Contains(res.unexpectedSuccesses.term, Unit(case_.term)),
            Concat(f.full, Unit(el('failure', z3.StringVal('Unexpected success')))), f.full)
    e = those('erroneous', res.errors, 'error', un)
    s = those('skipped', res.skipped, 'skipped', e.full)
    x = do(JX.unittestCaseToXml, res, case_)
    prove('a case', x.tag == 'testcase')
    prove('its outcome: every failure, error and skip of it, and no other', children(x) == s.full)
    prove('its name', And(StrK.unwrap(x.attrs['classname']) == XML(z3.StringVal(NAMES[i][0])),
                          StrK.unwrap(x.attrs['name']) == XML(z3.StringVal(NAMES[i][1]))))
    prove('its time', 'time' in x.attrs)


@unit('C25', ['launch_testing.junitxml:unittestResultToXml', 'launch_testing.junitxml:_outcomeTestCase'],
      assumes=TEXTS + ('unittestCaseToXml: the element of the case (unit one_case)',))
def one_result():
    report_contracts()
    started = fresh_seq('started', CaseK)
    res = Result(testCases=started)
    use_contract(JX.unittestCaseToXml, lambda r, c: (prove('the outcome in this result', r is res), Described('case', c.term))[1])
    allout = VList(kind=OutK, term=Concat(res.failures.term, res.errors.term, res.skipped.term))
    want = Fold('cases', allout, started.term, lambda acc, o: If(z3.Contains(acc, Unit(OUT(o))), acc, Concat(acc, Unit(OUT(o)))))
    xs = MapFold('elements', VList(kind=CaseK, term=want.full),
                 lambda c: ElK.mk(z3.StringVal('case'), z3.StringVal(''), c), ElK)
    name = fresh_str('name')
    x = do(JX.unittestResultToXml, name, res)
    prove('a suite', x.tag == 'testsuite')
    prove('every case that ran or has an outcome', children(x) == xs.full)
    prove('its name', StrK.unwrap(x.attrs['name']) == XML(name.term))
    counts(x, res.testsRun.term, Length(res.failures.term) + Length(res.unexpectedSuccesses.term), Length(res.errors.term))
    prove('skips are counted', StrK.unwrap(x.attrs['skipped']) == dec(Length(res.skipped.term)))


def dec(n):
    return StrK.unwrap(rt.call(str, IntK.wrap(n)))


def counts(x, tests, failures, errors):
    for k, n in (('tests', tests), ('failures', failures), ('errors', errors)):
        prove('%s are counted' % k, StrK.unwrap(x.attrs[k]) == dec(n))
    prove('the time is given', 'time' in x.attrs)


@unit('C25', ['launch_testing.junitxml:unittestResultToXml'])
def each_case_once():
    """Lemma over the contract of unittestResultToXml: no case comes twice, and none is lost."""
    acc, x = fresh_seq('cases so far', CaseK).term, fresh_obj('case of the next outcome', CaseK).term
    i, j, y = E().fresh('i', IntS), E().fresh('j', IntS), fresh_obj('any case', CaseK).term
    more = If(z3.Contains(acc, Unit(x)), acc, Concat(acc, Unit(x)))
    E().assume(And(0 <= i, i < j, j < Length(more)))
    E().assume(z3.Implies(j < Length(acc), acc[i] != acc[j]))
    E().assume(z3.Implies(And(0 <= i, i < Length(acc)), z3.Contains(acc, Unit(acc[i]))))
    prove('cases stay distinct', more[i] != more[j])
    prove('no case is lost', z3.Implies(z3.Contains(acc, Unit(y)), z3.Contains(more, Unit(y))))
    prove('the case of the outcome is there', z3.Contains(more, Unit(x)))


@unit('C25', ['launch_testing.junitxml:unittestResultsToXml'],
      assumes=TEXTS + ('unittestResultToXml: the element of the result (unit one_result)',
                       'the number of results of one report: up to three'))
def report():
    report_contracts()
    n = choose(4)
    rs = [Result(' %d' % i) for i in range(n)]
    names = [fresh_str('name %d' % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            assume(names[i].term != names[j].term)
    use_contract(JX.unittestResultToXml, lambda name, r: (
        prove('under its name', StrK.unwrap(name) == StrK.unwrap(names[rs.index(r)])), Described('suite', z3.IntVal(rs.index(r))))[1])
    kw = {}
    if n or choose(2):
        kw['test_results'] = dict(zip([Key(s) for s in names], rs))
    title = None
    if choose(2):
        title = kw['name'] = fresh_str('report')
    x = do(JX.unittestResultsToXml, **kw)
    prove('a report', x.tag == 'testsuites')
    prove('every result once', [(c.tag, c.term.as_long()) for c in x.children.items] == [('suite', i) for i in range(n)])
    prove('its name', StrK.unwrap(x.attrs['name']) == XML(title.term if title is not None else z3.StringVal('launch_test')))
    zero = z3.IntVal(0)
    counts(x, sum([r.testsRun.term for r in rs], zero),
           sum([Length(r.failures.term) + Length(r.unexpectedSuccesses.term) for r in rs], zero),
           sum([Length(r.errors.term) for r in rs], zero))


class Key(Fake):
    """What results are filed under: a test run, which is shown by its name."""

    def __init__(self, name):
        self.name = name

    def vc_str(self):
        return self.name


# ---------------------------------------------------------------- readiness
@unit('C25', ['launch_testing.ready_aggregator:ReadyAggregator.ready_fn', 'launch_testing.ready_aggregator:ReadyAggregator.__init__'],
      assumes=('threading.Lock: mutual exclusion; other threads change the count only with the lock held (every access in '
               'ready_fn is checked to hold it)',))
def ready_step():
    """One call, with any number of other calls before, between and after: the count is any number at the time the lock is taken."""
    state = dict(held=0, sections=0, seen=None)

    class Lock(Fake):
        def __enter__(self):
            prove('the lock is not taken twice', state['held'] == 0)
            state['held'] = 1
            state['sections'] += 1
            state['seen'] = fresh_int('calls still missing')      # others were here
            state['cell'] = state['seen']
            return self

        def __exit__(self, *a):
            state['held'] = 0
            state['left'] = state['cell']
            return False

        def acquire(self, *a, **k):
            self.__enter__()
            return True

        def release(self):
            self.__exit__()
    patch_global('threading', Facade(threading, Lock=Lock, RLock=Lock))
    calls = []

    def parent():
        prove('the parent is called without the lock', state['held'] == 0)
        calls.append(1)
    n = fresh_int('actions')
    state['cell'] = None
    a = new(RA.ReadyAggregator, parent, n)
    attr = [k for k, v in a.__dict__.items() if v is n]
    prove('the number of calls to wait for is kept', len(attr) == 1)
    name = attr[0]

    class Checked(type(a)):
        pass

    def get(self):
        prove('the count is read with the lock held', state['held'] == 1)
        return state['cell']

    def put(self, v):
        prove('the count is changed with the lock held', state['held'] == 1)
        state['cell'] = v
    setattr(Checked, name, property(get, put))
    del a.__dict__[name]
    a.__class__ = Checked
    rt.call(a.ready_fn)
    prove('the lock is taken once', state['sections'] == 1)
    prove('the lock is released', state['held'] == 0)
    prove('one call less is missing', IntK.unwrap(state['left']) == IntK.unwrap(state['seen']) - 1)
    prove('ready is signalled by the last missing call, and by no other',
          (IntK.unwrap(state['seen']) == 1) == z3.BoolVal(len(calls) == 1))
    prove('at most once', len(calls) <= 1)


@unit('C25', ['launch_testing.ready_aggregator:ReadyAggregator.ready_fn'],
      assumes=('ready_fn: the n-th critical section signals exactly if the count before it was 1 (unit ready_step)',))
def ready_history():
    """Lemma: after k calls n - k are missing, so of all calls exactly the n-th signals."""
    n, k = E().fresh('n', IntS), E().fresh('calls so far', IntS)
    E().assume(And(n >= 1, k >= 0))
    missing = n - k
    prove('the invariant is kept', missing - 1 == n - (k + 1))
    prove('exactly the n-th call signals', (missing == 1) == (k + 1 == n))


@unit('C25', ['launch_testing.actions.ready:ReadyToTest.execute', 'launch_testing.actions.ready:ReadyToTest._add_callback',
              'launch_testing.actions.ready:ReadyToTest.__init__'],
      assumes=('up to three callbacks of one action',))
def ready_action():
    patch(RD, '_logger_', Facade(None, error=lambda *a: None))
    a = new(RD.ReadyToTest)
    log = []

    def cb(i, bad):
        def f():
            log.append(i)
            if bad:
                raise (Exception('x'), ValueError('y'))[i % 2]
        return f
    n = choose(4)
    for i in range(n):
        do(a._add_callback, cb(i, choose(2)))
    k, r = outcome(do, a.execute, Fake())
    prove('a failing callback stops nothing', k == 'ok' and r is None, repr(r))
    prove('every callback is called once, in order', log == list(range(n)))


# ---------------------------------------------------------------- runs
class Died(Exception):
    pass


@unit('C25', ['launch_testing.test_runner:LaunchTestRunner.run', 'launch_testing.test_runner:LaunchTestRunner.__init__',
              'launch_testing.test_runner:LaunchTestRunner.generate_preamble'],
      assumes=('_RunnerWorker.run: a result, SkipTest or _LaunchDiedException (unit worker)', 'up to three runs'))
def runs():
    n = choose(4)
    log = []
    rs = [Named('run %d' % i) for i in range(n)]
    what = []
    args, debug, pre = VList([]), bool(choose(2)), VList([])

    class Worker(Fake):
        def __init__(self, run, preamble, arguments=None, debug_=None, **k):
            log.append(run)
            self.run_ = run
            prove('arguments are passed on', (arguments, k.get('launch_file_arguments'))[arguments is None] is args and
                  (debug_ is debug or k.get('debug') is debug))

        def run(self):
            w = choose(3)
            what.append(w)
            if w == 1:
                raise unittest.case.SkipTest('why')
            if w == 2:
                raise RUN._LaunchDiedException()
            return 'result of ' + self.run_.name

    def made(kind):
        def f(test_run, message=None, skip_reason=None):
            prove('a skip says why', kind == 'fail' or skip_reason == 'why')
            return (kind, test_run)
        return f
    patch(RUN, '_RunnerWorker', Worker)
    patch(RUN, 'SkipResult', made('skip'))
    patch(RUN, 'FailResult', made('fail'))
    patch(RUN, 'print', lambda *a, **k: None)
    r = new(RUN.LaunchTestRunner, rs, launch_file_arguments=args, debug=debug)
    res = do(r.run)
    for i, w in enumerate(what):
        want = ('result of run %d' % i, ('skip', rs[i]), ('fail', rs[i]))[w]
        prove('the outcome of each run', res[rs[i]] == want)
    prove('every run up to one that was aborted', len(what) == (what.index(2) + 1 if 2 in what else n))
    prove('in order, each once', log == rs[:len(what)])
    prove('no other results', list(res) == rs[:len(what)])


W = 'launch_testing.test_runner:_RunnerWorker.'


@unit(('C24', 'C25'), [W + '__init__', W + 'run', W + '_run_test', W + '_print_process_output_summary'],
      assumes=('LaunchService.run: calls event handlers, returns when the launch is over (C06, C15)',
               'threading: Event and Thread; unittest.TextTestRunner.run: the result of the given tests',
               'one process of the launch stands for any (C24: records of several processes)'))
def worker():
    from launch.events.process import ProcessExited, ProcessIO, ProcessStarted
    log, bound = [], {}

    class Event(Fake):
        def __init__(self):
            self.on = False

        def set(self):
            self.on = True

        def is_set(self):
            return self.on

        def wait(self, timeout=None):
            waits.append(timeout)
            return self.on
    waits = []

    class Thread(Fake):
        def __init__(self, target=None, name=None, daemon=None, args=(), kwargs=None):
            self.target = target
            self.started = False
            threads.append(self)

        def start(self):
            log.append('thread')
            self.started = True

        def join(self, timeout=None):
            pass
    threads = []
    what = choose(4)           # the launch dies first; tests run; nothing gets ready; the test thread fails
    keep = choose(2)
    rc = (0, 3)[choose(2)]

    class Service(Fake):
        def __init__(self, **k):
            self.k = k
            self.ld = None
            self.down = 0

        def include_launch_description(self, ld):
            prove('one description', self.ld is None)
            self.ld = ld

        def shutdown(self, **k):
            self.down += 1

        def run(self, *, shutdown_when_idle=True):
            log.append('launch')
            prove('an idle launch is kept alive only on request', shutdown_when_idle is (not keep))
            prove('tests wait in a thread', len(threads) == 1 and threads[0].started)
            feed(self.ld)
            if what == 0:
                return 1
            if what != 2:
                ready[0]()
            k, r = outcome(threads[0].target)
            prove('the launch is shut down when the tests are over', self.down >= 1)
            prove('the failure of the test thread is not hidden', (k == 'raise') == (what == 3), repr(r))
            return 0
    ready = []

    class Res(Fake):
        def __init__(self, tests):
            self.tests, self.parts = tests, [tests]

        def append(self, other):
            self.parts += other.parts

    class TextRunner(Fake):
        def __init__(self, *a, **k):
            prove('results know durations', k.get('resultclass') is TR.TestResult)

        def run(self, tests):
            log.append(tests)
            prove('tests are bound before they run', tests in bound)
            if what == 3 and tests == 'pre':
                raise KeyboardInterrupt()
            return Res(tests)

    class TestRun(Fake):
        timeout = 15
        pre_shutdown_tests, post_shutdown_tests = 'pre', 'post'
        param_args = {'p': 1}
        markers = {'keep_alive': True} if keep else {}

        def normalized_test_description(self, ready_fn):
            ready.append(ready_fn)
            return desc, {'extra': 2}

        def bind(self, tests, injected_attributes=None, injected_args=None):
            prove('bound once, before the launch', tests not in bound and 'launch' not in log)
            bound[tests] = (injected_attributes, injected_args)
    import launch
    from launch import LaunchDescription
    desc = LaunchDescription([])
    quiet()
    patch(RUN, 'LaunchService', Service)
    patch(RUN, 'threading', Facade(threading, Event=Event, Thread=Thread))
    patch(RUN, 'unittest', Facade(unittest, TextTestRunner=TextRunner))
    patch(RUN, 'print', lambda *a, **k: None)
    details = {'name': 'proc', 'cmd': ['proc'], 'cwd': None, 'env': None, 'pid': 1}

    class Proc(launch.actions.ExecuteProcess):
        process_details = details

        def __init__(self):
            pass
    action = Proc()
    kw = dict(action=action, name='proc', cmd=['proc'], cwd=None, env=None, pid=1)
    start, done = ProcessStarted(**kw), ProcessExited(returncode=rc, **kw)
    foreign = bool(choose(2))
    ios = [ProcessIO(text=b'a\xff' if foreign else b'a', fd=1, **kw), ProcessIO(text=b'b', fd=2, **kw)]
    quietly = choose(2)

    def feed(ld):
        """The events of one process, to every handler that matches."""
        ents = list(rt.to_vlist(ld.entities).items)
        hs = [e.event_handler for e in ents if isinstance(e, launch.actions.RegisterEventHandler)]
        incl = [e for e in ents if isinstance(e, launch.actions.IncludeLaunchDescription)]
        prove('the description under test is launched', len(incl) == 1 and ents.index(incl[0]) == len(ents) - 1 and
              rt.call(incl[0].launch_description_source.get_launch_description, ctx) is desc)
        prove('what the caller wants comes first', ents[0] == pre)
        prove('launch arguments are passed on', [tuple(x) for x in incl[0].launch_arguments] == [('a', 'b')])
        for e in (start, *([] if quietly else ios), done):
            for h in hs:
                if do(h.matches, e):
                    do(h.handle, e, ctx)
            if e is start:
                prove('a start is recorded', rt.getitem(info()[0], action) is start)
    ctx = new_context()
    pre = RD.ReadyToTest()

    def info():
        a = bound['pre'][0]
        return a['proc_info'], a['proc_output']
    w = new(RUN._RunnerWorker, TestRun(), VList([pre]), VList(['a:=b']), bool(choose(2)))
    k, r = outcome(w.run)
    prove('bound to both kinds of tests', set(bound) == {'pre', 'post'})
    pi, po = info()
    for tests, inner in (('pre', False), ('post', True)):
        at, ar = bound[tests]
        x, y = at['proc_info'], at['proc_output']
        prove('attributes and arguments agree', ar['proc_info'] is x and ar['proc_output'] is y and
              ar['test_args'] == at['test_args'] == {'a': 'b'})
        prove('what the description and the parameters give', ar['p'] == 1 and ar['extra'] == 2)
        prove('the exit is recorded', rt.getitem(x, action) is done and list(rt.to_vlist(do(x.processes)).items) == [action])
        prove('the output is recorded completely', list(rt.to_vlist(rt.getitem(y, 'proc')).items) == ([] if quietly else ios))
        prove('the service is given to tests while it runs only',
              ('launch_service' in at) == ('launch_service' in ar) == (not inner))
    if what == 1:
        prove('a result', k == 'ok' and isinstance(r, Res), repr(r))
        prove('of both kinds of tests, each once', r.parts == ['pre', 'post'])
        prove('in order', log == ['thread', 'launch', 'pre', 'post'])
    else:
        if what != 3:
            # output that is not ASCII: see known_findings.json
            why = ': output that is not ASCII' if foreign and not quietly and k == 'raise' and isinstance(r, UnicodeDecodeError) else ''
            prove('a launch that died is reported' + why, k == 'raise' and isinstance(r, RUN._LaunchDiedException), repr(r))
        prove('no result otherwise', k == 'raise' and (what == 3 or 'post' not in log), repr(r))
    prove('there is a limit for getting ready', what == 0 or waits[0] == 15)
