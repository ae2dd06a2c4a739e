"""The surroundings of ExecuteLocal as their contracts describe them (C17, C18, C19)."""
import asyncio
import codecs
import io
import os

from .common import *
import launch.actions.execute_local
import launch.logging
from launch import LaunchContext
from launch.actions import ExecuteLocal
from osrf_pycommon.process_utils import AsyncSubprocessProtocol
from launch.events.process import ProcessExited, ProcessStderr, ProcessStdout
from .c15 import Awaitable
from .c20 import Ctx, GFuture, Loop, matching

T = 'launch.actions.execute_local:ExecuteLocal.'
M = launch.actions.execute_local
NL = StringVal('\n')


def tm(v):
    """The term of a value."""
    return v if isinstance(v, z3.ExprRef) else V.kind_of(v).unwrap(v)


BODY = uf('line.body', StrS, StrS)


class Text(Fold):
    """The first k lines of a text, one after the other; what io.StringIO yields when iterated."""

    def __init__(self, text):
        seq = fresh_seq('lines', StrK)
        self.text = text
        super().__init__('text%d' % len(E().path.specs), seq, StringVal(''), lambda acc, x: Concat(acc, x))
        self.lines = seq
        n = Length(seq.term)
        E().assume(self.full == text)
        E().assume(Implies(text == '', n == 0))
        if E().entailed(Not(z3.Contains(text, NL)))[0] == 'proved':
            E().assume(n == If(text == '', 0, 1))

    def line(self, k):
        """What is known of the k-th line."""
        x = self.base[k]
        E().assume(Implies(And(k >= 0, k < self.n), And(
            x != '', Not(z3.Contains(BODY(x), NL)),
            Or(x == Concat(BODY(x), NL), And(x == BODY(x), Not(z3.SuffixOf(NL, x)), k == self.n - 1)))))
        E().assume(Implies(k == self.n - 1, And(self.f(self.n) == self.f(k + 1), self.text != '',
                                                z3.SuffixOf(NL, self.text) == z3.SuffixOf(NL, x))))

    def unfold(self, k, init=False, last=False):
        super().unfold(k, init, last)
        if not init and not last:
            self.line(k)


class GhostIO(Fake):
    """Contract of io.StringIO: a text, a position, and the lines from there on."""
    made = None

    def __init__(self, initial='', newline='\n'):
        track(self)
        if newline != '\n':
            raise Unsupported('StringIO with other line ends')
        self.content, self.pos, self.isclosed = initial, 0, False
        self.writes = 0
        self.splits = []             # where the text may be cut: (text, position, before, after)
        if GhostIO.made is not None:
            GhostIO.made.append(self)

    def _set(self, **k):
        if E().branch(tm(self.isclosed)):
            raise ValueError('I/O operation on closed file')
        for n, v in k.items():
            rt.setattr_(self, n, v)

    @property
    def closed(self):
        return self.isclosed

    def close(self):
        rt.setattr_(self, 'isclosed', True)

    def getvalue(self):
        self._set()
        return self.content

    def tell(self):
        self._set()
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 0:
            self._set(pos=pos)
        elif whence == 2 and pos == 0:
            self._set(pos=IntK.wrap(Length(tm(self.content))))
        else:
            raise Unsupported('relative seek')
        return self.pos

    def truncate(self, n=None):
        n = tm(self.pos if n is None else n)
        c = tm(self.content)
        self._set(content=StrK.wrap(z3.simplify(If(n >= Length(c), c, z3.SubString(c, 0, n)))
                                    if not (z3.is_int_value(n) and n.as_long() == 0) else StringVal('')))

    def write(self, s):
        self._set()
        c, t = tm(self.content), tm(s)
        x, y = self.cut(self.pos)
        if z3.is_string_value(y) and y.as_string() == '':
            new_ = Concat(x, t)
            splits = [(p1, x1, Concat(y1, t)) for c1, p1, x1, y1 in self.splits if c1.eq(c)] + [(Length(x), x, t)]
        else:
            new_ = Concat(x, t, z3.SubString(y, Length(t), Length(y)))
            splits = []
        pos = IntK.wrap(Length(x) + Length(t))
        self._set(content=StrK.wrap(new_), pos=pos)
        self.splits = [(tm(self.content),) + z for z in splits] if not E().path.loops else []
        rt.setattr_(self, 'writes', self.writes + 1) if not E().path.loops else None

    def cut(self, pos):
        """The text before and after a position."""
        c, p = tm(self.content), z3.simplify(tm(pos))
        if z3.is_int_value(p) and p.as_long() == 0:
            return StringVal(''), c
        for c1, p1, x, y in reversed(self.splits + [(c, Length(c), c, StringVal(''))]):
            if c1.eq(c) and E().entailed(p == p1)[0] == 'proved':
                return x, y
        if not E().entailed(And(p >= 0, p <= Length(c)))[0] == 'proved':
            raise Unsupported('a position outside of a text')
        return z3.SubString(c, 0, p), z3.SubString(c, p, Length(c) - p)

    def rest(self):
        return self.cut(self.pos)[1]

    def read(self):
        self._set()
        r = self.rest()
        self._set(pos=IntK.wrap(Length(tm(self.content))))
        return StrK.wrap(r)

    def vc_iter(self):
        self._set()
        p0, c0 = tm(self.pos), tm(self.content)
        before, rest = self.cut(self.pos)
        if z3.is_string_value(rest) and rest.as_string() == '':
            return VList([])
        t = Text(rest)
        self.splits.append((c0, p0 + Length(t.f(t.n)), Concat(before, t.f(t.n)), StringVal('')))
        invariant('position in ' + t.name, lambda k: And(tm(self.pos) == p0 + Length(t.f(k)), tm(self.content) == c0))
        ghost('position in ' + t.name, lambda: tm(self.pos))

        def at(k):
            t.line(k)
            if not (tm(self.content).eq(c0) or E().entailed(tm(self.content) == c0)[0] == 'proved'):
                raise Unsupported('a text is changed while its lines are read')
            rt.setattr_(self, 'pos', IntK.wrap(p0 + Length(t.f(k + 1))))
            x = t.base[k]
            ends = E().branch(z3.SuffixOf(NL, x))
            r = E().fresh('rest', StrS) if ends else BODY(x)
            E().assume(t.f(t.n) == Concat(t.f(k), r))
            self.splits.append((c0, p0 + Length(t.f(k)), Concat(before, t.f(k)), r))
            if ends:
                E().assume(x == Concat(BODY(x), NL))
                return SymStr(Concat(BODY(x), NL))
            E().assume(And(x == BODY(x), k == t.n - 1))
            return SymStr(BODY(x))
        return VIter(t.n, at, t.lines)


class Chunk(Fake):
    """Bytes received."""
    text = None

    def __init__(self, name):
        self.name = name


class GhostDecoder(Fake):
    """Contract of an incremental decoder: the texts it returns, one after the other, are the decoded bytes."""

    def __init__(self, world):
        track(self)
        world.decoders.append(self)
        self.given, self.texts, self.finals = [], [], []
        self.stream = None

    def decode(self, data, final=False):
        if E().path.loops:
            raise Unsupported('decoding in a cut loop')
        if data == b'':
            if not final:
                return ''
        t = fresh_str('decoded') if getattr(data, 'text', None) is None else StrK.wrap(StringVal(data.text))
        if data == b'':
            assume(Not(z3.Contains(t.term, NL)))     # at most a replacement character
        self.given.append(data)
        self.finals.append(final)
        self.texts.append(t)
        return t

    def reset(self):
        raise Unsupported('reset of a decoder')


class Record(Fake):
    """A formatted line."""

    def __init__(self, line):
        self.line = line


class StreamLogger(Fake):
    """The logger of one stream: the text logged, every line followed by its newline."""

    def __init__(self):
        track(self)
        self.text = ''
        self.ends_line = True        # what is logged are complete lines
        self.empty = False

    def info(self, r):
        if not isinstance(r, Record):
            prove('every line is formatted as configured', False)
            E().end()
        line = tm(r.line)
        if not self.ends_line and not E().entailed(line != '')[0] == 'proved':
            self.empty = True
        if self.ends_line:
            prove('a logged line is one line', Not(z3.Contains(line, NL)))
            line = Concat(line, NL)
        rt.setattr_(self, 'text', StrK.wrap(Concat(tm(self.text), line)))


class Format(Fake):
    def __init__(self, world):
        self.world = world

    def format(self, *, line, this):
        prove('the action is passed for formatting', this is self.world.action)
        return Record(line)


class Desc(Fake):
    """A process description, once prepared."""

    def __init__(self):
        self.prepared = 0
        self.name = 'proc'
        self.final_name, self.final_cmd, self.final_cwd, self.final_env = 'proc', ['cmd', 'arg'], '/cwd', {'VAR': 'value'}

    def prepare(self, context, action):
        self.prepared += 1


class Tasks(Loop):
    def create_task(self, coro):
        E().path.cleanup.append(coro.close)
        return Loop.create_task(self, coro)


class Locals(Fake):
    pass


class Context(Ctx):
    def __init__(self, loop):
        Ctx.__init__(self, loop, {})
        self.launch_configurations = {}
        self.is_shutdown = False
        self.removed = []
        self.noninteractive = False
        self.locals = Locals()

    def unregister_event_handler(self, h):
        self.removed.append(h)

    def locals_event(self, event):
        """The event being handled, for those who ask for it."""
        self.locals = Locals()
        self.locals.event = event

    def extend_locals(self, d):
        for n, v in d.items():
            setattr(self.locals, n, v)

    def _push_locals(self):
        pass

    _pop_locals = _push_locals


class Log(Fake):
    """The logger of the process: errors are kept for explanations."""

    def __init__(self):
        self.errors = []

    def error(self, m):
        self.errors.append(m)

    def info(self, m):
        pass

    debug = warning = info


class World:
    """A real ExecuteLocal action that has been executed."""

    def __init__(self, execute=True, **k):
        self.log = Log()
        use_contract(launch.logging.get_logger, lambda *a, **k: self.log)
        self.decoders = []
        GhostIO.made = self.ios = []
        patch(M, 'io', Facade(io, StringIO=GhostIO))
        patch(M, 'codecs', Facade(codecs, getincrementaldecoder=self.getdecoder))
        self.out, self.err = StreamLogger(), StreamLogger()
        self.asked = []

        def loggers(name, output):
            self.asked.append((name, output))
            return (self.out, self.err)
        use_contract(launch.logging.get_output_loggers, loggers)
        self.loop = Tasks()
        self.ctx = Context(self.loop)
        self.desc = Desc()
        use_contract(launch.utilities.type_utils.perform_typed_substitution,
                     lambda c, v, t: v if not isinstance(v, (list, tuple)) else v[0])
        use_contract(launch.utilities.type_utils.normalize_typed_substitution, lambda v, t: v)
        use_contract(LUT_NORM, lambda v: v if isinstance(v, (list, VList)) else [v])
        use_contract(LUT_PERF, lambda c, v: v[0] if isinstance(v, (list, VList)) else v)
        # however the process is executed otherwise
        for option in ('shell', 'log_cmd', 'emulate_tty', 'respawn'):
            k.setdefault(option, fresh_bool(option))
        k.setdefault('respawn_max_retries', fresh_int('respawn_max_retries'))
        self.action = new(ExecuteLocal, process_description=self.desc, output_format=Format(self), **k)
        if execute:
            r = do(self.action.execute, self.ctx)
            prove('executing gives nothing to do', r is None)

    def getdecoder(self, name):
        prove('output is decoded as UTF-8', name.lower().replace('_', '-') in ('utf-8', 'utf8'))

        def make(errors='strict'):
            prove('undecodable bytes do not stop the output', errors != 'strict')
            return GhostDecoder(self)
        return make

    def handle(self, event):
        """Whoever is registered handles the event, in the order of the launch service."""
        hs = [h for h in reversed(self.ctx.handlers) if E().branch(tm(do(h.matches, event)))]
        return [do(h.handle, event, self.ctx) for h in hs]

    def event(self, cls, **k):
        return new(cls, action=self.action, name='proc', cmd=['cmd', 'arg'], cwd=None, env=None, pid=7, **k)


class Transport(Fake):
    """A subprocess transport: what was asked of it."""

    def __init__(self, pid=7):
        self.pid, self.signals, self.closes, self.gone = pid, [], 0, False

    def get_pid(self):
        return self.pid

    def send_signal(self, s):
        if self.gone:
            raise ProcessLookupError()
        self.signals.append(s)

    def kill(self):
        self.send_signal('SIGKILL')

    def terminate(self):
        self.send_signal('SIGTERM')

    def close(self):
        self.closes += 1


class Complete(Fake):
    """The completion of a process: awaiting it lets the process run until it exits."""

    def __init__(self, world):
        self.world = world

    def done(self):
        return self.world.exited

    def __await__(self):
        w = self.world
        w.seen.append(('started', len(w.ctx.events)))
        w.at('running')
        w.while_running()
        w.exited = True
        return w.returncode
        yield


class Process(World):
    """A real ExecuteLocal action and one run of its process."""

    def __init__(self):
        self.failed = self.exited = False
        self.sleeps, self.left = 0, []       # chunks that are left in the tty at exit
        self.may_fail, self.while_running = True, lambda: None
        self.seen, self.waited, self.shut = [], [], False
        self.shutdown_at, self.shutdown_how = None, 0
        self.respawn, self.max_retries, self.retries = fresh_bool('respawn'), fresh_int('respawn_max_retries'), fresh_int('restarts')
        assume(tm(self.retries) >= 0)
        self.delay = [None, fresh_real('respawn_delay')][choose(2)]
        self.tty, self.config = fresh_bool('emulate_tty'), choose(3)
        self.in_shell = fresh_bool('shell')
        self.returncode, self.pid = fresh_int('return code'), 7
        self.transport = Transport(7)
        World.__init__(self, respawn=self.respawn, respawn_delay=self.delay, respawn_max_retries=self.max_retries,
                       emulate_tty=self.tty, shell=self.in_shell)
        if not set_private(self.action, '__respawn_retries', self.retries):
            raise Unsupported('the number of restarts')
        self.completed = do(self.action.get_asyncio_future)
        self.shutdown_futures = [f for f in self.loop.futures if f is not self.completed]
        self.down = False
        self.configured = fresh_bool('configured emulate_tty')
        if self.config:
            self.ctx.launch_configurations['emulate_tty'] = 'value'

        class BadCondition(Exception):
            pass

        def evaluate(context, value):
            prove('the configuration is evaluated in the context', context is self.ctx)
            if self.config == 2:
                self.failed = True
                raise BadCondition
            return self.configured
        use_contract(M.evaluate_condition_expression, evaluate)
        use_contract(AsyncSubprocessProtocol.__init__, lambda p, **k: setattr(p, 'complete', Complete(self)))
        use_contract(AsyncSubprocessProtocol.connection_made, lambda p, t: setattr(p, 'transport', t))
        patch(M, 'async_execute_process', self.start)
        patch(M, 'asyncio', Facade(asyncio, wait=self.wait, sleep=self.sleep))
        self.ctx.emit_event = self.emit

    def at(self, where):
        """A suspension: a shutdown may happen."""
        if self.shutdown_at != where or self.shut:
            return
        self.shut = True
        self.down = True
        if self.shutdown_how == 0:
            self.ctx.is_shutdown = True
        for f in self.shutdown_futures:
            rt.setattr_(f, 'isdone', True)

    def emit(self, e):
        def go():
            self.ctx.events.append(e)
            if self.exited:
                self.seen.append(('exited', len(self.ctx.events)))
            self.at('exited' if self.exited else 'announcing')
        return Awaitable(go)

    def start(self, factory, *, cmd, cwd, env, shell, emulate_tty, stderr_to_stdout):
        def go():
            prove('the process is started as described', cmd == self.desc.final_cmd and cwd == self.desc.final_cwd
                  and env == self.desc.final_env and stderr_to_stdout is False)
            prove('in a shell exactly if asked for', tm(shell) == tm(self.in_shell))
            want = tm(self.configured if self.config else self.tty)
            prove('a tty is emulated as configured', tm(emulate_tty) == want)
            self.at('starting')
            if self.may_fail and choose(2):
                self.failed = True
                raise OSError('cannot be started')
            p = do(factory)
            do(p.connection_made, self.transport)
            self.protocol = p
            return self.transport, p
        return Awaitable(go)

    def wait(self, futures, *, timeout=None, return_when=asyncio.ALL_COMPLETED):
        def go():
            fs = list(futures)
            prove('one waits for shutdown', len(fs) == 1 and fs[0] in self.shutdown_futures)
            prove('one waits for the delay', tm(timeout) == tm(self.delay) if self.delay is not None else False)
            self.waited.append(timeout)
            self.at('delay')
            return set(), set(fs)
        return Awaitable(go)

    def sleep(self, t, result=None):
        prove('nothing is waited for without need', t == 0)

        def go():
            # what is readable in an iteration of the loop is received after the tasks that were ready
            self.sleeps += 1
            if self.sleeps > 1 and self.left:
                self.left.pop(0)()
            self.at('draining')
        return Awaitable(go)

    def run(self):
        c = self.loop.tasks[-1]

        async def go():
            await c
        return run_coro(go())
