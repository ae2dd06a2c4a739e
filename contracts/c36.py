"""C36: the return code of a legacy launch test tells whether a test failed."""
import asyncio

from .common import *
import launch
import launch.actions
import launch.launch_description
from launch import Action, LaunchDescription
from launch.actions import EmitEvent, ExecuteProcess, RegisterEventHandler
from launch.events import ExecutionComplete, Shutdown
from launch.events.process import ProcessExited, ProcessStdout
from launch_testing.legacy import LaunchTestService

T = 'launch_testing.legacy:LaunchTestService.'


class Proc(ExecuteProcess):
    """A process of some name, unique among the processes (C18)."""

    def __init__(self, i):
        super().__init__(cmd=['c'])
        self.i = i

    @property
    def process_details(self):
        return {'name': 'proc-%d' % self.i}


class Runner(Fake):
    def __init__(self, rc):
        self.rc, self.calls = rc, []

    def run(self, *a, **k):
        self.calls.append((a, k))
        return self.rc


class World:
    """A launch test whose handlers get the events of a run."""

    def __init__(self):
        quiet()
        self.s, self.ld = new(LaunchTestService), new(LaunchDescription)
        self.ctx = new(launch.LaunchContext, noninteractive=True)
        self.ctx._push_locals()
        self.shutdowns = []

    def handlers(self):
        return [e.event_handler for e in self.ld.entities if isinstance(e, RegisterEventHandler)]

    def send(self, event):
        n = len(self.shutdowns)
        for h in self.handlers():
            if h.matches(event):
                r = do(h.handle, event, self.ctx)
                for e in ([] if r is None else [r] if isinstance(r, Action) else list(rt.to_vlist(r).items)):
                    prove('a handler only shuts down', isinstance(e, EmitEvent) and isinstance(e.event, Shutdown))
                    self.shutdowns.append(e.event)
        return len(self.shutdowns) - n

    def exit(self, p, code):
        return self.send(new(ProcessExited, returncode=code, action=p, name='n', cmd=['c'], cwd=None, env=None, pid=1))

    def out(self, p, data):
        return self.send(new(ProcessStdout, text=data, action=p, name='n', cmd=['c'], cwd=None, env=None, pid=1))

    def shutdown(self):
        self.ctx._set_is_shutdown(True)
        return self.send(new(Shutdown))

    def code(self, own=0):
        r = Runner(own)
        rc = do(self.s.run, r, 1, k=2)
        prove('the launch service is run once, as asked', r.calls == [((1,), {'k': 2})])
        return rc


def num(v):
    return IntK.unwrap(v)


@unit('C36', [T + '__init__', T + 'add_test_action', T + '_arm', T + '_fail', T + '_succeed', T + 'run'],
      assumes=('up to three tests stand for any number',), budget=200)
def processes():
    w = World()
    n = 1 + choose(3)
    ps = [new(Proc, i) for i in range(n)]
    for p in ps:
        prove('the action is given back', do(w.s.add_test_action, w.ld, p) is p)
    prove('each action is part of the launch description, once', [e for e in w.ld.entities if e in ps] == ps)
    left, failed, order = list(ps), [], list(range(n))
    if n > 1 and choose(2):
        order.reverse()
    k = choose(n + 1)
    armed = set(range(n))
    for i in order[:k]:
        code = fresh_int('code')
        got = w.exit(ps[i], code)
        armed.discard(i)
        if E().branch(code.term != 0):
            failed.append(code)
            armed.clear()
            prove('a failed test ends the launch', got == 1)
        else:
            prove('the launch ends once every test is over, not before', got == (not armed))
    own = fresh_int('own')
    rc = num(w.code(own))
    prove('the return code', rc == z3.If(own.term != 0, own.term, failed[0].term if failed else IntVal(0)))


@unit('C36', [T + 'add_fixture_action', T + 'run'])
def fixture():
    w = World()
    p, other = new(Proc, 1), new(Action)
    form = choose(4)
    allowed = (True, False, None, [fresh_int('a'), fresh_int('b')][:choose(3)])[form]
    kw = {} if allowed is None else {'exit_allowed': allowed}
    prove('the action is given back', do(w.s.add_fixture_action, w.ld, other) is other and do(w.s.add_fixture_action, w.ld, p, **kw) is p)
    prove('each action is part of the launch description', [e for e in w.ld.entities if not isinstance(e, RegisterEventHandler)] == [other, p])
    down = choose(2)
    if down:
        w.ctx._set_is_shutdown(True)
    code = fresh_int('code')
    got = w.exit(p, code)
    ok = z3.BoolVal(allowed) if form < 2 else code.term == 0 if form == 2 else Or(z3.BoolVal(False), *[code.term == a.term for a in allowed])
    died = And(Not(ok), z3.BoolVal(not down))
    prove('a fixture that dies ends the launch, otherwise it does not', z3.BoolVal(got == 1) == died)
    prove('once', got <= 1)
    own = fresh_int('own')
    rc = num(w.code(own))
    prove('the return code', rc == z3.If(own.term != 0, own.term, z3.If(died, z3.If(code.term != 0, code.term, IntVal(1)), IntVal(0))))


class Fut(Fake):
    def __init__(self, how):
        self.how, self.error = how, RuntimeError('bad')

    def cancelled(self):
        return self.how == 'cancelled'

    def done(self):
        return True

    def exception(self):
        if self.how == 'cancelled':
            raise asyncio.CancelledError
        return self.error if self.how == 'failed' else None

    def result(self):
        if self.how == 'failed':
            raise self.error
        return self.exception()


@unit('C36', [T + 'add_test_action', T + '_drop', T + '_fail', T + '_succeed', T + 'run'])
def actions():
    w = World()
    how = (None, 'cancelled', 'failed', 'ok')[choose(4)]

    class Test(Action):
        def get_asyncio_future(self):
            return None if how is None else Fut(how)
    a = new(Test)
    other = new(Proc, 1) if choose(2) else None
    prove('the action is given back', do(w.s.add_test_action, w.ld, a) is a)
    if other is not None:
        do(w.s.add_test_action, w.ld, other)
    got = w.send(new(ExecutionComplete, action=a))
    if how == 'failed':
        prove('a failed test ends the launch', got == 1)
        prove('with its reason', w.shutdowns[0].reason == 'bad')
    elif how == 'cancelled':
        prove('a canceled test decides nothing', got == 0)
    else:
        prove('the launch ends once every test is over', got == (other is None))
    if other is not None and how != 'failed':
        prove('the other test is the last one', w.exit(other, 0) == 1)
    own = fresh_int('own')
    prove('the return code', num(w.code(own)) == z3.If(own.term != 0, own.term, IntVal(1 if how == 'failed' else 0)))


@unit('C36', [T + 'add_output_test', T + '_finish', T + '_fail', T + '_succeed', T + 'run'],
      assumes=('a pattern matches what was collated so far or not, arbitrarily; up to two patterns and outputs stand for any number',), budget=300)
def output():
    w = World()
    p, q = new(Proc, 1), new(Proc, 2)
    filtered = choose(2)
    pats = [object() for _ in range(1 + choose(2))]
    verdicts, state = {}, []

    def collate(out, more):
        prove('output is collated with what came before', out == len(state))
        state.append(more)
        return out + 1

    def match(out, pattern):
        prove('a pattern is looked for in all of the output so far', out == len(state))
        key = (len(state), pats.index(pattern))
        if key not in verdicts:
            verdicts[key] = fresh_bool('matches')
        return verdicts[key]
    side = 'shutdown' if choose(2) else None
    kw = {'output_filter': lambda t: ('filtered', t)} if filtered else {}
    if side:
        kw['side_effect'] = side
    prove('the action is given back', do(w.s.add_output_test, w.ld, p, (0, collate, match, list(pats)), **kw) is p)
    other = choose(2)
    if other:
        do(w.s.add_test_action, w.ld, q)
    left, events, passed, oth = set(range(len(pats))), choose(3), False, bool(other)
    for i in range(events):
        data = b'text %d' % i
        w.out(q, b'of another process')
        got = w.out(p, data)
        prove('the output, filtered if asked for', state[-1] == (('filtered', data) if filtered else data) and len(state) == i + 1)
        if left:
            for j in sorted(left):
                v = verdicts.get((i + 1, j))
                prove('each pattern that did not match yet is looked for', v is not None)
                if v is not None and E().branch(v.term):
                    left.discard(j)
        if not left and not passed:
            passed = True
            prove('the launch ends once every test is over, or as asked', got == (1 if not oth or side else 0))
        elif not passed:
            prove('the launch goes on while patterns are missing', got == 0)
    if choose(2):
        got = w.exit(p, fresh_int('code'))
        prove('the launch ends with the process if no test is in progress', got == (1 if left and not oth else 0))
    if oth:
        prove('the other test ends', w.exit(q, 0) in (0, 1))
    w.shutdown()
    own = fresh_int('own')
    rc = num(w.code(own))
    prove('the return code tells whether all of the output matched', rc == z3.If(own.term != 0, own.term, IntVal(1 if left else 0)))
