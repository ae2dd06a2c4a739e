"""C31: a test run by pytest runs in its phase of the launch of its own fixture, and every failure fails it."""
import asyncio
import functools
import inspect
import sys
import unittest

import pytest
from _pytest.outcomes import Failed, Skipped

from .common import *
from pyvc.api import run_coro
import launch_pytest.fixture  # noqa: F401
import launch_pytest.plugin as PL
from launch.launch_description import LaunchDescription
from launch_pytest.actions import ReadyToTest
import launch_testing.pytest.hooks as HK

FX = sys.modules['launch_pytest.fixture']
P = 'launch_pytest.plugin:'
H = 'launch_testing.pytest.hooks:'


class Problem(Exception):
    pass


class Outcome(Failed):
    """As pytest.fail, which is no Exception."""


PROBLEMS = (Problem, Outcome)


def fine(f, *a, **k):
    k, r = outcome(do, f, *a, **k)
    prove('no error', k == 'ok', repr(r))
    return r


class Marked(Fake):
    """An object on which the plugin keeps attributes of its own."""

    def __getattr__(self, n):
        if n.startswith('_launch_pytest') or n in ('callspec', '_fixture_function'):
            raise AttributeError(n)
        return super().__getattr__(n)


class Node(Fake):
    def __init__(self, sub=(), conditional=()):
        self.sub, self.conditional = list(sub), list(conditional)

    def describe_sub_entities(self):
        return self.sub

    def describe_conditional_sub_entities(self):
        return [('c', x) for x in self.conditional]


def quiet_log():
    patch(sys.modules['launch_testing.actions.ready'], '_logger_', Facade(logging.getLogger('x'), error=lambda *a: None))


@unit('C31', ['launch_testing.actions.ready:ReadyToTest.execute', P + 'get_ready_to_test_action', P + 'iterate_ready_to_test_actions'],
      assumes=('sub-entities of an entity (C26); up to three levels',))
def ready_action():
    where = choose(9)
    r1, r2 = new(ReadyToTest), new(ReadyToTest)
    es, n = [([r1], 1), ([Node(), r1, r2], 2), ([Node([Node(), Node([r1])]), r2], 2), ([Node(conditional=[[Node()], [r1]])], 1),
             ([Node(conditional=[[Node([r1, r2])]]), Node()], 2), ([Node([Node([Node(conditional=[[r1]])])])], 1),
             ([Node([Node()]), Node(conditional=[[]])], 0), ([], 0), ([Node([r1]), Node(conditional=[[Node(), r2]])], 2)][where]

    class LDesc(Fake):
        entities = list(es)
    ld = LDesc()
    told = []
    fails = choose(3)
    for n_ in range(3):
        def cb(n_=n_):
            told.append(n_)
            if n_ == fails:
                raise Problem()
        do(r2._add_callback, cb)
    quiet_log()
    k, r = outcome(do, r2.execute, None)
    prove('everyone is told, whatever others make of it', k == 'ok' and told == [0, 1, 2], repr(r))
    k, r = outcome(do, PL.get_ready_to_test_action, ld)
    if n > 1:
        prove('at most one', k == 'raise' and isinstance(r, RuntimeError), repr(r))
    elif n == 1:
        prove('the one there is', k == 'ok' and r is r1 and ld.entities == es, repr(r))
    else:
        prove('one is added', k == 'ok' and isinstance(r, ReadyToTest) and len(ld.entities) == len(es) + 1 and ld.entities[-1] is r
              and ld.entities[:-1] == es, repr(r))


# ---------------------------------------------------------------- the launch of a fixture
class Future(Fake):
    """Result of what a loop does."""

    def __init__(self, run=None):
        self.state, self.value, self.error, self.callbacks, self.run = None, None, None, [], run

    def done(self):
        return self.state is not None

    def cancelled(self):
        return False

    def exception(self):
        if self.state is None:
            raise asyncio.InvalidStateError()
        return self.error

    def result(self):
        if self.state is None:
            raise asyncio.InvalidStateError()
        if self.error is not None:
            raise self.error
        return self.value

    def set_result(self, v):
        prove('one result', self.state is None)
        self.end(v)

    def end(self, v=None, error=None):
        self.state, self.value, self.error = 'done', v, error
        for c in self.callbacks:
            rt.call(c, self)

    def add_done_callback(self, c):
        if self.state is None:
            self.callbacks.append(c)
        else:
            rt.call(c, self)

    def make(self):
        """The work behind it."""
        if self.state is None and self.run is not None:
            k, r = outcome(self.run)
            if k == 'raise' and isinstance(r, StopIteration):
                # a future cannot hold this
                prove('waits for ever', False, 'StopIteration in a future')
            self.end(r if k == 'ok' else None, r if k == 'raise' else None)


class Loop(Fake):
    closed = False

    def is_closed(self):
        return self.closed

    def create_future(self):
        return Future()

    def run_in_executor(self, executor, f, *args):
        prove('the default executor', executor is None)
        return Future(lambda: rt.call(f, *args))

    def run_until_complete(self, f):
        self.drive(f)
        if not f.done():
            prove('waits for ever', False, 'nothing is left that could end the wait')
        return f.result()


@unit('C31', [P + 'pytest_fixture_setup', P + 'set_up_launch_service', P + 'run_until_complete', 'launch_pytest.fixture:finalize_launch_service',
              'launch_testing.actions.ready:ReadyToTest.execute', 'launch_testing.actions.ready:ReadyToTest._add_callback'],
      assumes=('LaunchService.run_async, shutdown (C15, C16)', 'pytest calls the hook and the finalizers; the loop ends when it runs out of events'))
def launch_of_a_fixture():
    """Every kind of result, every order of being ready and finishing."""
    log = []
    when_idle, auto = bool(choose(2)), bool(choose(2))
    plain = choose(5) == 4

    def user_fixture():
        pass
    if not plain:
        user_fixture._launch_pytest_fixture = True
        user_fixture._launch_pytest_fixture_options = dict(shutdown_when_idle=when_idle, auto_shutdown=auto, scope='function')
    finalizers, given = [], []

    class Def(Fake):
        func = user_fixture
        argname = 'user_fixture'
        cached_result = None

        def addfinalizer(self, f):
            log.append('finalizer')
            finalizers.append(f)
    task = Future()
    loop = Loop()
    r = new(ReadyToTest)
    ld = new(LaunchDescription, [r])
    rc = 0 if plain else (0, 1, -1)[choose(3)]

    class Context(Fake):
        asyncio_loop = loop

    class Service(Fake):
        context = Context()
        event_loop = loop
        task = None

        def include_launch_description(self, x):
            log.append('included')
            prove('the description of the fixture', x is ld)

        def run_async(self, *, shutdown_when_idle=True):
            prove('the options of the fixture', shutdown_when_idle is when_idle)
            return 'run'

        def shutdown(self, force_sync=False):
            log.append('shutdown')
            prove('from outside of the loop', force_sync is True)
    ls = Service()

    def create_task(c):
        prove('the service is run', c == 'run')
        log.append('run')
        ls.task = task
        return task
    loop.create_task = create_task

    class Request(Fake):
        def getfixturevalue(self, n):
            given.append(n)
            return {'launch_service': ls, 'event_loop': loop}[n]
    current = []
    patch(PL, 'asyncio', Facade(asyncio, set_event_loop=current.append))
    fd = Def()
    gen = do(PL.pytest_fixture_setup, fd, Request())
    rt.call(next, gen)
    kind = 0 if plain else choose(9)
    two = new(LaunchDescription, [new(ReadyToTest), new(ReadyToTest)])
    res = [ld, (ld,), [ld, 'x'], (ld, 1, 2), [], None, ['x', ld], None, two][kind]
    # what pytest keeps for the next test
    error = (Problem(), None)
    fd.cached_result = (None, 0, error) if kind == 7 else (res, 0, None)

    class Result(Fake):
        def get_result(self):
            if kind == 7:
                raise Problem()
            log.append('result')
            return res
    order = 0 if plain or kind >= 4 else choose(4)
    happens = [['ready'], ['end'], ['ready', 'end'], ['end', 'ready']][order]
    failing = bool('end' in happens and choose(2))

    def drive(f):
        if happens is not rest:
            prove('finalized whatever happens while waiting', 'finalizer' in log)
        while not f.done() and happens:
            step(happens.pop(0))

    def step(e):
        if e == 'ready':
            do(r.execute, ls.context)
        else:
            task.end(rc, Problem() if failing else None)
    loop.drive, rest = drive, None
    k, v = outcome(gen.send, Result())
    ended = k == 'raise' and isinstance(v, StopIteration)
    if plain:
        prove('other fixtures are left alone', ended and fd.cached_result == (res, 0, None) and log == [] and given == [], repr(v))
        return
    prove('with the service and loop of the fixture', sorted(given) == ['event_loop', 'launch_service'])
    if kind == 7:
        prove('errors of the fixture', isinstance(v, Problem) and log == [], repr(v))
        return
    prove('the next test gets the result exactly if the launch is ready', (
        fd.cached_result == (res, 0, None)) if ended else fd.cached_result is None or fd.cached_result[2] is not None)
    if kind == 8:
        prove('what is never ready is not run', k == 'raise' and isinstance(v, RuntimeError) and log == ['result'], repr(v))
        return
    if kind >= 4:
        prove('what is no launch description is an error', k == 'raise' and isinstance(v, AssertionError) and log == ['result'], repr(v))
        return
    prove('included and run, once', log[:3] == ['result', 'included', 'run'] and log.count('included') == log.count('run') == 1)
    prove('in the loop of the fixture', current == [loop])
    if order in (0, 2):
        prove('ready once the action has been executed', ended, repr(v))
    else:
        prove('a launch that finishes first is a failure', k == 'raise' and isinstance(v, (Failed, Problem)), repr(v))
    prove('one finalizer', len(finalizers) == 1)
    for e in happens:
        step(e)
    rest = happens
    if not task.done():
        loop.drive = lambda f: task.end(rc)
    log.clear()
    k, v = outcome(do, finalizers[0])
    prove('shut down exactly if asked for', log == (['shutdown'] if auto else []))
    prove('finished', task.done())
    if failing:
        prove('what made the launch fail', k == 'raise' and isinstance(v, Problem), repr(v))
    else:
        prove('a launch that fails is an error', k == 'ok' if not rc else k == 'raise' and isinstance(v, AssertionError), repr(v))


@unit('C31', ['launch_pytest.fixture:finalize_launch_service', 'launch_pytest.fixture:get_launch_service_fixture',
              'launch_pytest.fixture:get_launch_context_fixture', 'launch_pytest.fixture:get_event_loop_fixture'],
      assumes=('asyncio event loop policy', 'pytest.fixture'))
def own_fixtures():
    auto, how, rc = bool(choose(2)), choose(3), (0, 1, -1)[choose(3)]
    log = []
    loop = [None, Loop(), Loop()][how]
    task = Future()

    class Service(Fake):
        event_loop = loop
        context = object()

        def shutdown(self, force_sync=False):
            log.append('shutdown')
    ls = Service()
    ls.task = task
    if how:
        loop.closed = how == 2

        def drive(f):
            log.append('wait')
            prove('for the service', f is task)
            task.end(rc)
        loop.drive = drive
    k, r = outcome(do, FX.finalize_launch_service, ls, eprefix='x', auto_shutdown=auto)
    prove('shut down first', log == (['shutdown'] if auto else []) + (['wait'] if how == 1 else []))
    prove('the return code counts', (k == 'raise' and isinstance(r, AssertionError)) if how == 1 and rc else k == 'ok', repr(r))
    scope, over = ['function', 'module'][choose(2)], bool(choose(2))
    for get, name in ((FX.get_launch_service_fixture, 'launch_service'), (FX.get_launch_context_fixture, 'launch_context'),
                      (FX.get_event_loop_fixture, 'event_loop')):
        f = do(get, scope=scope, overridable=over)
        prove('its scope', getattr(f, '_launch_pytest_overridable_fixture', False) is over and (
            not over or f._launch_pytest_fixture_scope == scope))
        function = f._get_wrapped_function()
        if name == 'event_loop':
            old = [None, Loop(), Loop()][choose(3)]
            mine, current = Loop(), [old]
            for l in (old, mine):
                if l is not None:
                    l.__dict__['close'] = lambda l=l: setattr(l, 'closed', True)

            class Policy(Fake):
                def new_event_loop(self):
                    return mine

                def get_event_loop(self):
                    if old is None:
                        raise RuntimeError()
                    return old

                def set_event_loop(self, l):
                    current[0] = l
            patch(FX, 'asyncio', Facade(asyncio, get_event_loop_policy=lambda: pol, set_event_loop_policy=lambda p: current.append(p),
                                        new_event_loop=lambda: mine, set_event_loop=lambda l: pol.set_event_loop(l)))
            pol = Policy()
            g = do(function)
            k, r = outcome(rt.call, next, g)
            prove('a loop of its own, which is current and open', r is mine and current[0] is mine and not mine.closed, repr(r))
            k, r = outcome(rt.call, next, g)
            prove('closed in the end', isinstance(r, StopIteration) and mine.closed, repr(r))
        if name == 'launch_context':
            prove('the context of the service', do(function, ls) is ls.context)
        if name == 'launch_service':
            made, log[:] = [], []
            task.state, ls.event_loop = None, None

            def make(*a, **k):
                made.append(k)
                return ls
            patch(FX, 'launch', Facade(launch, LaunchService=make))
            g = do(function, 'loop')
            prove('a service of its own', rt.call(next, g) is ls and len(made) == 1 and log == [])
            k, r = outcome(rt.call, next, g)
            prove('shut down in the end', isinstance(r, StopIteration) and log == ['shutdown'], repr(r))


# ---------------------------------------------------------------- the test
class Item(Marked):
    """A test item with a launch marker."""

    def __init__(self, fixture, kw, **attrs):
        self.kw, self.fixture = kw, fixture
        self.__dict__.update(attrs)

    def get_closest_marker(self, n):
        if n != 'launch' or self.kw is None:
            return None
        me = self

        class Mark(Fake):
            kwargs = dict(fixture=me.fixture, **me.kw) if me.fixture is not None else dict(me.kw)
        return Mark()


def a_fixture(scope, auto):
    def ld():
        pass
    ld._launch_pytest_fixture_options = dict(scope=scope, auto_shutdown=auto, shutdown_when_idle=True)
    wrapped = choose(2)
    if not wrapped:
        return ld

    class Wrapped(Fake):
        _fixture_function = staticmethod(ld)
        __name__ = 'ld'
    return Wrapped()


@unit('C31', [P + n for n in (
    'pytest_pyfunc_call', 'wrap_coroutine', 'wrap_func', 'wrap_generator', 'wrap_generator_fscope', 'wrap_asyncgen', 'wrap_asyncgen_fscope',
    'first_step', 'run_until_complete', 'is_launch_test', 'has_shutdown_kwarg', 'need_shutdown_test_item', 'is_shutdown_test', 'get_launch_test_fixture',
    'get_launch_test_fixture_options')],
    assumes=('pytest calls pytest_pyfunc_call and then the function of the item', 'what runs in the executor or the loop while that runs otherwise (C15)'))
def phases():
    """Tests of all kinds that pass or fail before or after the yield, yield not at all or too often."""
    log = []
    kind = ['function', 'coroutine', 'generator', 'asyncgen'][choose(4)]
    gens = kind in ('generator', 'asyncgen')
    scope, auto = ['function', 'module'][choose(2)], bool(choose(2))
    marked = bool(choose(2))
    ends = ['pass', 'first', 'second', 'none', 'twice'][choose(5 if gens else 2)]
    kind_of_problem = PROBLEMS[choose(2)] if ends in ('first', 'second') else Problem

    def part(n, kw=None):
        log.append((n, kw) if kw is not None else n)
        if ends == n:
            raise kind_of_problem(n)
    value = object()
    if kind == 'function':
        def test(**kw):
            part('first', kw)
    elif kind == 'coroutine':
        async def test(**kw):
            part('first', kw)
    elif kind == 'generator':
        def test(**kw):
            part('first', kw)
            if ends != 'none':
                yield
                part('second')
            if ends == 'twice':
                yield
    else:
        async def test(**kw):
            part('first', kw)
            if ends != 'none':
                yield
                part('second')
            if ends == 'twice':
                yield
    loop = Loop()
    loop.drive = lambda f: f.make()
    task = Future()
    rc_fails = bool(choose(2))

    class Service(Fake):
        event_loop = loop

        def shutdown(self, force_sync=False):
            prove('from outside of the loop', force_sync is True)
            log.append('shutdown')
    ls = Service()
    ls.task = task

    def finish():
        log.append('finished')
        return (1, -1)[choose(2)] if rc_fails else 0
    task.run = finish
    patch(PL, 'asyncio', Facade(asyncio, ensure_future=lambda c, loop=None: Future(lambda: run_step(c))))

    def run_step(c):
        return run_coro(c)

    class Manager(Fake):
        def getfixtureinfo(self, node, func, cls):
            return ('info', node, func)

    class Session(Fake):
        _fixturemanager = Manager()
    fx = a_fixture(scope, auto)
    mk = lambda f: Item(fx, dict(shutdown=True) if marked else {}, obj=f, funcargs=dict(event_loop=loop, launch_service=ls),   # noqa: E731
                        session=Session(), cls=None)
    it = mk(test)
    it._launch_pytest_is_shutdown = marked
    separate = gens and scope != 'function' and not marked
    if separate:
        sh = mk(test)
        sh._launch_pytest_is_shutdown = True
        it._launch_pytest_shutdown_item = sh

    def call(i, **kw):
        g = do(PL.pytest_pyfunc_call, i)
        k, r = outcome(rt.call, next, g)
        if k == 'raise':
            return k, r
        k, r = outcome(do, i.obj, **kw)
        rt.call(next, g, None)
        return k, r
    finalize = (['shutdown'] if auto else []) + ['finished']
    if separate and choose(3) == 2:
        k, r = call(sh)
        prove('no second part without the first', k == 'raise' and isinstance(r, Skipped) and log == [], repr(r))
        return
    k, r = call(it, a=value)
    if gens and marked:
        prove('a generator is no shutdown test', k == 'raise' and isinstance(r, Failed) and log == [], repr(r))
        return
    first = [('first', dict(a=value))]
    bad = lambda k, r: k == 'raise' and not isinstance(r, Skipped)   # noqa: E731
    if not gens:
        prove('a shutdown test runs once launch has finished', log[:len(finalize)] == finalize if marked else log == first)
        if marked and rc_fails:
            prove('and launch has to finish well', bad(k, r) and log == finalize, repr(r))
            return
        prove('with its arguments', log == (finalize if marked else []) + first)
        prove('its problems are those of the test', bad(k, r) and isinstance(r, PROBLEMS) if ends == 'first' else k == 'ok', repr(r))
        return
    if ends in ('first', 'none'):
        prove('first while launch runs', log == first)
        prove('a test that fails or does not yield fails', bad(k, r) and (isinstance(r, PROBLEMS) or ends == 'none'), repr(r))
        if separate:
            log.clear()
            k, r = call(sh)
            prove('and there is no second part of it', k == 'raise' and log == [], repr(r))
        return
    if separate:
        prove('first while launch runs', log == first and k == 'ok', repr(r))
        prove('the second part asks for no arguments', sh._fixtureinfo[1:] == (sh, sh.obj) and not outcome(inspect.signature, sh.obj)[1].parameters.keys() - {'kwargs'})
        k, r = call(sh)
    prove('second once launch has finished', log[:1 + len(finalize)] == first + finalize)
    if rc_fails:
        prove('and launch has to finish well', bad(k, r) and len(log) == 1 + len(finalize), repr(r))
        return
    prove('both parts', log == first + finalize + ['second'])
    prove('it passes exactly if it ends', k == 'ok' if ends == 'pass' else bad(k, r) and (isinstance(r, PROBLEMS) or ends == 'twice'), repr(r))


@unit('C31', [P + 'pytest_pyfunc_call', P + 'is_launch_test'])
def other_tests():
    class I(Item):
        def __setattr__(self, n, v):
            if n == 'obj' and 'kw' in self.__dict__:
                prove('other tests are left alone', False)
            self.__dict__[n] = v
    i = I(None, None)
    g = do(PL.pytest_pyfunc_call, i)
    rt.call(next, g)
    k, r = outcome(g.send, None)
    prove('other tests are left alone', isinstance(r, StopIteration), repr(r))


# ---------------------------------------------------------------- collection
@unit('C31', [P + n for n in ('pytest_pycollect_makeitem', 'generate_test_items', 'from_parent', 'is_launch_test_mark_valid', 'is_valid_test_item',
                              'has_shutdown_kwarg', 'need_shutdown_test_item', 'get_launch_test_fixture', 'get_launch_test_fixture_options')],
      assumes=('collector._genfunctions gives the items for the sets of parameters; up to three',))
def collected():
    kind = choose(5)
    scope = ['function', 'class', 'module', 'session'][choose(4)]
    marks = choose(4)      # none, without a fixture, with it, as shutdown test
    wanted = bool(choose(2)) if kind == 0 else True

    def f():
        pass

    async def c():
        pass

    def g():
        yield

    async def ag():
        yield
    obj = [f, c, g, ag, 'no function'][kind]
    fx = a_fixture(scope, True)
    n = 1 + choose(3)
    made, warned = [], []

    class I(Item):
        name = 'test_x'
        cls = module = None

        def warn(self, w):
            warned.append(w)

        def add_marker(self, m):
            self.skipped = m.name == 'skip'
    kw = [None, {}, {}, dict(shutdown=True)][marks]

    class Function(Fake):
        @staticmethod
        def from_parent(*, parent, name):
            prove('of the collector', parent is coll and name == 'test_x')
            return I(fx if marks > 1 else None, kw)

    class Coll(Fake):
        def funcnamefilter(self, name):
            return wanted

        def _genfunctions(self, name, o):
            prove('the marks come first', any(m.name == 'usefixtures' and m.args == ('ld', 'launch_service', 'event_loop') for m in getattr(o, 'pytestmark', [])))
            items = []
            for k in range(n):
                i = I(fx, kw)
                i.name = 'test_x[%d]' % k
                items.append(i)
            made.append(list(items))
            return iter(items)
    coll = Coll()
    patch(PL, 'pytest', Facade(pytest, Function=Function))
    k, r = outcome(do, PL.pytest_pycollect_makeitem, coll, 'test_x', obj)
    if kind == 4 or not wanted or marks == 0:
        prove('left to others', k == 'ok' and r is None and not made and not warned, repr(r))
        return
    if marks == 1:
        prove('skipped, with a warning', k == 'ok' and len(r) == 1 and r[0].skipped and len(warned) == 1 and isinstance(warned[0], PL.LaunchTestWarning), repr(r))
        return
    both = kind in (2, 3) and scope != 'function'
    prove('one item per set of parameters', k == 'ok' and r[:n] == made[0] and len(r) == (2 * n if both else n), repr(r))
    for j, i in enumerate(r[:n]):
        prove('in its phase', fine(PL.is_shutdown_test, i) is (marks == 3) and i.name == 'test_x[%d]' % j)
    if both:
        prove('and one for the second part', r[n:] == made[1])
        for i, s in zip(r, r[n:]):
            prove('which belongs to it', i._launch_pytest_shutdown_item is s and fine(PL.is_shutdown_test, s) is True and s.name != i.name)


class Tree(Item):
    parents = ()

    def getparent(self, cls):
        return dict(self.parents).get(cls)


@unit('C31', [P + 'is_same_launch_test_fixture', P + 'is_shutdown_test', P + 'get_launch_test_fixture', P + 'get_launch_test_fixture_options'])
def same_launch():
    scope = ['function', 'class', 'module', 'package', 'session'][choose(5)]
    f1, f2 = a_fixture(scope, True), a_fixture(scope, True)

    def item(fx, where, param):
        i = Tree(fx, None if fx is None else {}, parents=((pytest.Class, where[0]), (pytest.Module, where[1]), (pytest.Package, where[2])))
        if param is not None:
            class Spec(Fake):
                params = param
            i.callspec = Spec()
        return i
    fa, fb = [(f1, f1), (f1, f2), (f1, None), (None, None)][choose(4)]
    wa = ('C1', 'M1', 'P1')
    wb = [('C1', 'M1', 'P1'), ('C2', 'M1', 'P1'), ('C2', 'M2', 'P1'), ('C2', 'M2', 'P2'), (None, 'M1', 'P1')][choose(5)]
    pa, pb = [(None, None), (dict(ld=1), dict(ld=1, x=2)), (dict(ld=1), dict(ld=2)), (dict(x=1), dict(x=2)), (None, dict(x=1)), (dict(ld=1), None), (dict(ld=0), dict(ld='')),
              (dict(ld=None), dict(ld=False))][choose(8)]
    a, b = item(fa, wa, pa), item(fb, wb, pb)
    level = dict(function=0, package=2, module=1).get(scope)
    want = fa is f1 and fb is f1 and scope != 'function' and {
        'class': wa[0] == wb[0], 'module': wa[1] == wb[1], 'package': wa[2] == wb[2]}.get(scope, True) and (pa or {}).get('ld') == (pb or {}).get('ld')
    prove('the launch of the same fixture, parameters and class or module', fine(PL.is_same_launch_test_fixture, a, b) is want)
    prove('either way', fine(PL.is_same_launch_test_fixture, b, a) is want)


@unit('C31', [P + 'pytest_collection_modifyitems'], assumes=('up to four items; more in the bounded cases',))
def order_of_the_tests():
    fxs = {n: a_fixture_named(n) for n in 'ab'}
    items = []
    for j in range(choose(5)):
        kind = choose(5)
        fx = fxs['ab'[kind % 2]] if kind < 4 else None
        i = Tree(fx, {} if fx else None, parents=((pytest.Module, 'M'),))
        i._launch_pytest_is_shutdown = kind in (2, 3)
        i.kind, i.pos = kind, j
        items.append(i)
    before = list(items)
    fine(PL.pytest_collection_modifyitems, None, None, items)
    prove('the same tests', sorted(i.pos for i in items) == list(range(len(before))))
    for n, i in enumerate(items):
        for j in items[n + 1:]:
            prove('shutdown tests after all that use the same launch', not (i.kind in (2, 3) and j.kind in (0, 1) and i.kind % 2 == j.kind % 2))
            if i.kind == j.kind or (i.kind in (0, 1, 4) and j.kind in (0, 1, 4)):
                prove('otherwise in the order given', i.pos < j.pos)


def a_fixture_named(n):
    def ld():
        pass
    ld.__name__ = n
    ld._launch_pytest_fixture_options = dict(scope='module', auto_shutdown=True, shutdown_when_idle=True)
    return ld


# ---------------------------------------------------------------- launch_testing with pytest
class Result_(unittest.TestResult):
    def __init__(self, how, errors=(), failures=()):
        super().__init__()
        self.testsRun = 3
        self.errors = list(errors) if how in (1, 3) else []
        self.failures = list(failures) if how in (2, 3) else []
        self.unexpectedSuccesses = [1] if how == 4 else []
        self.ok, self.how = how == 0, how


class Case(unittest.TestCase):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def runTest(self):
        pass

    def id(self):
        return self.n


@unit('C31', [H + n for n in ('LaunchTestItem.runtest', 'LaunchTestItem.repr_failure', 'LaunchTestItem.reportinfo', 'LaunchTestFailure.__init__', 'LaunchTestFailure.__str__',
                              'LaunchTestFailureRepr.__init__', 'LaunchTestFailureRepr.__str__', 'LaunchTestFailureRepr.toterminal')],
      assumes=('LaunchTestRunner.run (C23, C29)', 'up to two runs'))
def launch_testing_item():
    it = HK.LaunchTestItem.__new__(HK.LaunchTestItem)
    log = []
    args = [[], [['a:=1'], ['b:=2', 'c:=3']], [[]]][choose(3)]

    class Config(Fake):
        def getoption(self, n):
            return {'--launch-args': args, 'verbose': 2}[n]
    it.config = Config()
    runs = [['run']]
    it.test_runs = runs
    results = {'r%d' % n: Result_(choose(5), [(Case('e%d' % n), 'error\nof %d' % n)], [(Case('f%d' % n), 'failure'), (object(), 'no case')])
               for n in range(choose(3))}
    invalid = bool(choose(2)) if not results else False

    class Runner(Fake):
        def __init__(self, *, test_runs, launch_file_arguments, debug):
            log.append('made')
            prove('runs of its own each time', test_runs == runs and test_runs is not runs and test_runs[0] is not runs[0])
            prove('all arguments of the command line', launch_file_arguments == sum(args, []))

        def validate(self):
            log.append('validated')
            if invalid:
                raise Problem()

        def run(self):
            log.append('run')
            return results
    it.runner_cls = Runner
    for _ in range(2):
        log.clear()
        k, r = outcome(do, it.runtest)
        if invalid:
            prove('a description that is not valid', isinstance(r, Problem) and log == ['made', 'validated'], repr(r))
            return
        prove('run once', log == ['made', 'validated', 'run'])
        failed = [n for n, x in results.items() if not x.ok]
        tell = lambda n: {1: 'e', 2: 'f', 3: 'ef', 4: ''}[results[n].how]   # noqa: E731
        prove('it passes exactly if all runs do', (k == 'raise' and isinstance(r, HK.LaunchTestFailure)) if failed else k == 'ok', repr(r))
    if failed:
        class Info(Fake):
            value = r
        rep = do(it.repr_failure, Info())
        text = do(str, rep)
        out = []

        class Out(Fake):
            write = staticmethod(out.append)
        do(rep.toterminal, Out())
        prove('every failure is told', all(('FAIL: %s%s' % (c, n[1])) in text and (c == 'f' or ('error\nof %s' % n[1]) in text) for n in failed for c in tell(n))
              and ''.join(out) == text, text)
        prove('and no others', not any(('FAIL: e%s' % n[1]) in text for n in results if n not in failed), text)
        prove('in short', all('%s%s failed' % (c, n[1]) in rep.reprcrash.message for n in failed for c in tell(n)))


@unit('C31', [H + n for n in ('pytest_pycollect_makemodule', 'pytest_launch_collect_makemodule', 'find_launch_test_entrypoint', 'LaunchTestModule.collect',
                              'LaunchTestModule.makeitem', 'LaunchTestItem.from_parent', '_pytest_version_ge')],
      assumes=('import of the file and pytest.Module, pytest.Package',))
def launch_testing_module():
    import pathlib
    import types
    name = ['test_x.py', '__init__.py'][choose(2)]
    path = pathlib.Path('/d') / name
    how = choose(5)     # not importable, no entry point, not marked, marked, marked but another plugin takes it
    entry = None

    def generate_test_description():
        pass
    if how >= 2:
        entry = generate_test_description
        marks = [pytest.mark.other.mark] + ([pytest.mark.launch_test.mark, pytest.mark.skipif(True, reason='r').mark] if how >= 3 else [])
        if choose(2) or how >= 3:
            entry.pytestmark = marks
    mod = types.ModuleType('test_x')
    if entry is not None:
        mod.generate_test_description = entry
    import _pytest.pathlib as PP

    def import_path(p, **k):
        prove('the file', p == path)
        if how == 0:
            raise SyntaxError()
        return mod
    patch(PP, 'import_path', import_path)
    added = []

    class Module(Fake):
        def add_marker(self, m):
            added.append(m)
    theirs = Module()
    lm = Module()

    def make(**kw):
        prove('of this file', kw == dict(parent=parent, path=path))
        return lm
    use_contract(HK.LaunchTestModule.from_parent, lambda *a, **kw: make(**kw))

    class Hook(Fake):
        def pytest_launch_collect_makemodule(self, *, path, parent, entrypoint):
            prove('the function that describes the launch', entrypoint is entry)
            return theirs if how == 4 else do(HK.pytest_launch_collect_makemodule, path=path, parent=parent, entrypoint=entrypoint)

    class Session(Fake):
        def gethookproxy(self, p):
            return Hook()

    class Parent(Fake):
        session = Session()
    parent = Parent()

    class Make(Fake):
        def __init__(self, n):
            self.n = n

        def from_parent(self, *a, **kw):
            prove('of this file', kw.pop('path') == path and (a == (parent,) or kw == dict(parent=parent)))
            return self.n
    patch(HK, 'pytest', Facade(pytest, Module=Make('module'), Package=Make('package')))
    k, r = outcome(do, HK.pytest_pycollect_makemodule, path, parent)
    if how == 4:
        prove('what other plugins make of it', k == 'ok' and r is theirs, repr(r))
    elif how == 3:
        prove('a launch test', k == 'ok' and r is lm, repr(r))
        prove('with the marks of its function', [(m.name, m.args, dict(m.kwargs)) for m in added] == [(m.name, m.args, dict(m.kwargs)) for m in entry.pytestmark])
        use_contract(HK.LoadTestsFromPythonModule, lambda m, *, name='x': ('runs', m, name))
        m = HK.LaunchTestModule.__new__(HK.LaunchTestModule)
        m.path = path
        made = []

        def item(*a, **kw):
            made.append((kw.pop('parent', a[-1] if a else None), kw))
            return 'item'
        use_contract(HK.LaunchTestItem.from_parent, item)
        got = list(do(m.collect))
        prove('one item with all runs of the file', got == ['item'] and len(made) == 1 and made[0][0] is m and made[0][1]['test_runs'][:2] == ('runs', mod))
    else:
        prove('an ordinary file', k == 'ok' and r == ('package' if name == '__init__.py' else 'module') and not added, repr(r))
