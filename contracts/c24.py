"""C24: process look-up, exit-code assertions and captured output."""
from .common import *
import threading

from launch.actions import ExecuteLocal, ExecuteProcess
from launch.events.process import ProcessExited, ProcessStarted
import launch_testing.asserts.assert_exit_codes as AX
import launch_testing.io_handler as IH
import launch_testing.proc_info_handler as PH
import launch_testing.tools.process as TP
import launch_testing.util.process_io as PIO
import launch_testing.util.proc_lookup as PL

U = 'launch_testing.util.proc_lookup:'
NAME, CMD = uf('process name', IntS, StrS), uf('process command', IntS, z3.SeqSort(StrS))
SS = z3.SeqSort(StrS)


class Proc(SymObj):
    """A process that was started: its details are known."""
    py_class = ExecuteProcess

    @property
    def process_details(self):
        E().path.proc = self.term
        cmd = CMD(self.term)
        E().assume(Length(cmd) >= 1)
        return {'name': StrK.wrap(NAME(self.term)), 'cmd': VList(kind=StrK, term=cmd)}


class LocalProc(Proc):
    py_class = ExecuteLocal


ProcK, LocalK = ObjK('process', Proc), ObjK('process', LocalProc)


class Records(Fake):
    """A handler that recorded any number of processes."""

    def __init__(self, procs):
        self.procs = procs

    def processes(self):
        return self.procs


def records():
    procs = fresh_seq('processes', ProcK)
    use_contract(PL._proc_to_name_and_args, lambda p: fresh_str('described'))
    return procs, Records(procs)


def look_up(info, **kw):
    if choose(2):
        kw['strict_proc_matching'] = True
    return outcome(do, PL.resolveProcesses, info, **kw)


@unit('C24', [U + 'resolveProcesses'])
def all_processes():
    procs, info = records()
    kw = {}
    if choose(2):
        kw['process'] = None
    if choose(2):
        kw['strict_proc_matching'] = bool(choose(2))
    k, r = outcome(do, PL.resolveProcesses, info, **kw)
    if k == 'raise':
        prove('an error only if nothing is recorded', And(isinstance(r, PL.NoMatchingProcessException), Length(procs.term) == 0), repr(r))
        return
    prove('all recorded processes', r.as_term(ProcK) == procs.term)
    prove('they are given as a list', isinstance(r, list))
    prove('at least one', Length(procs.term) > 0)


@unit('C24', [U + 'resolveProcesses'])
def by_action():
    procs, info = records()
    p = fresh_obj('process', (ProcK, LocalK)[choose(2)])
    kw = {}
    if choose(2):
        kw['strict_proc_matching'] = bool(choose(2))
    if choose(2):
        kw['cmd_args'] = fresh_str('ignored')
    k, r = outcome(do, PL.resolveProcesses, info, process=p, **kw)
    there = z3.Contains(procs.term, Unit(p.term))
    if k == 'raise':
        prove('an error only if it is not recorded', And(isinstance(r, PL.NoMatchingProcessException), Not(there)), repr(r))
    else:
        prove('exactly this process', And(there, r.as_term(ProcK) == Unit(p.term)))


ALLARGS = uf('all arguments are in', SS, BoolS)


@unit('C24', [U + 'resolveProcesses', U + '_str_name_to_process'])
def by_name():
    """Name and arguments: no, one or any number of arguments."""
    procs, info = records()
    name = fresh_str('name')
    kw = {}
    how = choose(5)
    if how == 0:
        args_ok = lambda c: z3.BoolVal(True)   # noqa: E731
        if choose(2):
            kw['cmd_args'] = None
    elif how == 1:
        kw['cmd_args'] = PL.NO_CMD_ARGS
        args_ok = lambda c: Length(c) == 1   # noqa: E731
    elif how == 2:
        a = kw['cmd_args'] = fresh_str('argument')
        args_ok = lambda c: z3.Contains(z3.SubSeq(c, 1, Length(c) - 1), Unit(a.term))   # noqa: E731
    else:
        seq = kw['cmd_args'] = fresh_seq('arguments', StrK, cls=list if how == 3 else tuple)
        args_ok = ALLARGS

        def hook(s):
            p = getattr(E().path, 'proc', None)
            if s.kind is StrK and z3.eq(s.term, seq.term) and p is not None:
                c = CMD(p)
                q = ForAllPrefix('all arguments', s, lambda x: z3.Contains(z3.SubSeq(c, 1, Length(c) - 1), Unit(x)))
                E().assume(q.full == ALLARGS(c))
        E().path.seq_hooks.append(hook)
    strict = bool(choose(2))
    if not strict or choose(2):
        kw['strict_proc_matching'] = strict
    want = FilterFold('designated', procs, lambda p: And(z3.Contains(NAME(p), name.term), args_ok(CMD(p))))
    E().path.nonneg = True
    k, r = outcome(do, PL.resolveProcesses, info, process=name, **kw)
    n = Length(want.full)
    if k == 'raise':
        if isinstance(r, PL.NoMatchingProcessException):
            prove('no match is reported only if there is none', n == 0)
        else:
            prove('another error only for several matches, in strict mode',
                  And(type(r) is Exception and strict, n > 1), repr(r))
        return
    prove('exactly the designated processes', r.as_term(ProcK) == want.full)
    prove('at least one, and only one in strict mode', n == 1 if strict else n >= 1)


@unit('C24', [U + 'resolveProcesses'])
def other_keys():
    procs, info = records()
    for x in (5, 2.5, object(), ['a']):
        k, r = outcome(do, PL.resolveProcesses, info, process=x)
        prove('anything else is rejected', k == 'raise' and isinstance(r, TypeError), repr(r))


# ---------------------------------------------------------------- exit codes
RUNNING, RC = uf('still running', IntS, BoolS), uf('return code', IntS, IntS)
INFO = uf('information about', IntS, IntS)


class Info(SymObj):
    """The last recorded event of a process: it was started, or it exited with a code."""

    def vc_isinstance(self, c):
        cs = c if isinstance(c, tuple) else (c,)
        run = RUNNING(self.term)
        if all(x in (ProcessStarted, ProcessExited) for x in cs):
            return BoolK.wrap(Or(*[run if x is ProcessStarted else Not(run) for x in cs]))
        return any(issubclass(ProcessStarted, x) and issubclass(ProcessExited, x) for x in cs)

    @property
    def returncode(self):
        if E().branch(RUNNING(self.term)):
            raise AttributeError('returncode')
        return IntK.wrap(RC(self.term))

    @property
    def process_name(self):
        return StrK.wrap(uf('info name', IntS, StrS)(self.term))

    @property
    def pid(self):
        return IntK.wrap(uf('info pid', IntS, IntS)(self.term))

    def __getattr__(self, n):
        if n == 'returncode':
            raise AttributeError(n)
        return SymObj.__getattr__(self, n)


InfoK = ObjK('info', Info)


class InfoOf(Fake):
    def __getitem__(self, p):
        t = INFO(p.term)
        E().assume(t >= 0)
        return InfoK.wrap(t)


RES_ASSUMES = ('resolveProcesses: one or more processes, or an error (units all_processes, by_action, by_name)',)


def resolution(info, procs, who, args, strict, none=False):
    def resolve(info_obj, *, process=None, cmd_args=None, strict_proc_matching=True):
        prove('the processes are those of the look-up', info_obj is info and process is who and cmd_args is args)
        prove('strictness is passed on', strict_proc_matching is strict)
        if none:
            raise PL.NoMatchingProcessException('none')
        return procs
    patch_global('resolveProcesses', resolve)
    E().path.nonneg = True


@unit('C24', ['launch_testing.asserts.assert_exit_codes:assertExitCodes'], assumes=RES_ASSUMES)
def exit_codes():
    procs, info = fresh_seq('processes', ProcK), InfoOf()
    assume(Length(procs.term) >= 1)
    who, args, strict = (fresh_str('who'), fresh_str('args'), bool(choose(2))) if choose(2) else (None, None, True)
    none = choose(6) == 5
    resolution(info, procs, who, args, strict, none)
    a = []
    if choose(2):
        codes = fresh_seq('codes', IntK)
        a = [codes if choose(2) else rt.call(iter, codes)]
        allowed = lambda c: z3.Contains(codes.term, Unit(c))   # noqa: E731
    else:
        allowed = lambda c: c == 0   # noqa: E731
    good = ForAllPrefix('all exited as allowed', procs, lambda p: And(Not(RUNNING(INFO(p))), allowed(RC(INFO(p)))))
    infos = MapFold('infos', procs, INFO, InfoK)
    E().assume(ForAllPrefix('infos as allowed', infos.result,
                            lambda i: And(Not(RUNNING(i)), allowed(RC(i)))).full == good.full)   # mapping law
    kw = {} if who is None else dict(process=who, cmd_args=args, strict_proc_matching=strict)
    k, r = outcome(do, AX.assertExitCodes, info, *a, **kw)
    if none:
        prove('no process: an error', k == 'raise' and isinstance(r, PL.NoMatchingProcessException))
    elif k == 'raise':
        prove('fails only if some process did not exit as allowed', And(isinstance(r, AssertionError), Not(good.full)), repr(r))
    else:
        prove('succeeds only if every process exited with an allowed code', good.full)


@unit('C24', ['launch_testing.asserts.assert_exit_codes:assertExitCodes'], assumes=RES_ASSUMES)
def exit_codes_are_numbers():
    procs, info = fresh_seq('processes', ProcK), InfoOf()
    resolution(info, procs, None, None, True)
    for bad in ('0', None, 0.5):
        for codes in ([bad], [0, bad], [bad, 0]):
            k, r = outcome(do, AX.assertExitCodes, info, codes)
            prove('codes have to be numbers', k == 'raise' and isinstance(r, AssertionError), repr(r))


# ---------------------------------------------------------------- recorded output
class Action(Fake):
    """An action whose process has a name."""

    def __init__(self, name):
        self.process_details = {'name': name, 'cmd': [name]}
        self.name = name


ACTION = uf('action of io', IntS, IntS)


class IO(SymObj):
    @property
    def action(self):
        return ProcK.wrap(ACTION(self.term))


IOK = ObjK('io', IO)


class NewIO(Fake):
    """The event being recorded."""

    def __init__(self, name):
        self.process_name = name


class Cond(Fake):
    """Contract of threading.Condition: a lock whose waiters all look again when they are notified."""

    def __init__(self):
        self.held, self.told, self.log = 0, None, []

    def acquire(self, *a):
        self.held += 1
        return True

    def release(self):
        self.held -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return False

    def notify(self, n=1):
        prove('waiters are notified with the lock held', self.held > 0)
        self.told = self.told or 'one'

    def notify_all(self):
        prove('waiters are notified with the lock held', self.held > 0)
        self.told = 'all'

    def wait_for(self, predicate, timeout=None):
        """Looks until the predicate holds or time is up: the result is its last value."""
        prove('waiting holds the lock', self.held > 0)
        self.log.append(timeout)
        return predicate()


def guarded(cls):
    patch_global('threading', Facade(threading, Condition=Cond, Lock=Cond, RLock=Cond))
    return new(cls)


class Guard(Fake):
    """Stands for the unsynchronized handler: every use is checked to happen under the lock."""

    def __init__(self, cond, inner):
        self.__dict__.update(_c=cond, _i=inner, changed=False)

    def _use(self, f, *a):
        prove('recorded data is used with the lock held', self._c.held > 0)
        return do(f, *a)

    def track(self, n):
        self.__dict__['changed'] = True
        return self._use(self._i.track, n)

    def append(self, x):
        self.__dict__['changed'] = True
        return self._use(self._i.append, x)

    def processes(self):
        return self._use(self._i.processes)

    def process_names(self):
        return self._use(self._i.process_names)

    def __getitem__(self, k):
        return self._use(self._i.__getitem__, k)

    def vc_iter(self):
        prove('recorded data is used with the lock held', self._c.held > 0)
        return do(self._i.__iter__)


def output_state(h):
    """Any recorded output of two processes (names are only compared, so two stand for any number)."""
    whole = fresh_seq('sequence', IOK)
    per = {n: fresh_seq('output of %s' % n, IOK) for n in ('one', 'two')}
    E().path.nonneg = True
    d = rt.mkdict([])
    for n, s in per.items():
        d[n] = s
    rt.setattr_(h, '_sequence_list', whole)
    rt.setattr_(h, '_process_name_dict', d)
    return whole, per


I = 'launch_testing.io_handler:IoHandler.'
AI = 'launch_testing.io_handler:ActiveIoHandler.'


def io_handler(active):
    if not active:
        h = new(IH.IoHandler)
        return h, h, None
    a = guarded(IH.ActiveIoHandler)
    c = a.io_event
    prove('the lock is the one waiters use', isinstance(c, Cond))
    inner = a._io_handler
    g = Guard(c, inner)
    rt.setattr_(a, '_io_handler', g)
    return a, inner, c


def settled(c, changed):
    if c is not None:
        prove('the lock is released', c.held == 0)
        prove('every waiter is woken by a change', c.told == 'all' if changed else True)


NAMES_ASSUMED = ('process names are only compared: two recorded names and a third stand for any number',)


@unit('C24', [I + '__init__', I + 'append', I + 'track', I + '__getitem__', I + '__iter__', I + 'process_names', I + 'processes',
              AI + '__init__', AI + 'append', AI + 'track', AI + '__getitem__', AI + '__iter__', AI + 'process_names',
              AI + 'processes'], assumes=NAMES_ASSUMED)
def output():
    h, inner, c = io_handler(choose(2))
    prove('nothing is recorded in the beginning', len(list(do(h.process_names))) == 0)
    whole, per = output_state(inner)
    w0, p0 = whole.term, {n: s.term for n, s in per.items()}
    p0['three'] = None
    name = ('one', 'two', 'three')[choose(3)]
    what = choose(3)
    if what == 0:
        x = fresh_obj('io', IOK)
        E().path.io_name = name
        patch(IO, 'process_name', property(lambda s: name))
        do(h.append, x)
        w0 = Concat(w0, Unit(x.term))
        p0[name] = Concat(p0[name], Unit(x.term)) if p0[name] is not None else Unit(x.term)
    elif what == 1:
        do(h.track, name)
        p0[name] = p0[name] if p0[name] is not None else Empty(z3.SeqSort(IntS))
    settled(c, what < 2)
    if c is not None:
        c.told = None
    seq = rt.to_vlist(rt.call(iter, h) if choose(2) else do(h.__iter__))
    prove('all events in order of arrival', seq.as_term(IOK) == w0)
    names = list(do(h.process_names))
    prove('the names of all processes', set(names) == {n for n in p0 if p0[n] is not None} and len(names) == len(set(names)))
    for n in p0:
        key = n if choose(2) else Action(n)
        k, r = outcome(rt.getitem, h, key)
        if p0[n] is None:
            prove('nothing is known about other processes', k == 'raise' and isinstance(r, KeyError), repr(r))
            continue
        prove('the events of the process, in order of arrival', k == 'ok' and r.as_term(IOK) == p0[n], repr(r))
        rt.call(r.append, fresh_obj('more', IOK))
        prove('the result is a copy', rt.getitem(h, n).as_term(IOK) == p0[n])
    ps = do(h.processes)
    want = Concat(Empty(z3.SeqSort(IntS)), *[If(Length(t) > 0, Unit(ACTION(t[0])), Empty(z3.SeqSort(IntS)))
                                            for t in p0.values() if t is not None])
    prove('the processes that wrote something', ps.as_term(ProcK) == want)
    settled(c, False)


# ---------------------------------------------------------------- recorded starts and exits
P = 'launch_testing.proc_info_handler:ProcInfoHandler.'
AP = 'launch_testing.proc_info_handler:ActiveProcInfoHandler.'


def new_info(action, exited):
    d = dict(action=action, name=action.name, cmd=[action.name], cwd=None, env=None, pid=1)
    e = new(ProcessExited, returncode=3, **d) if exited else new(ProcessStarted, **d)
    prove('the event is of the process', e.action is action and e.process_name is d['name'] and e.cmd is d['cmd'] and
          e.pid == 1 and e.cwd is None and e.env is None and (not exited or e.returncode == 3))
    return e


def info_handler(active):
    if not active:
        h = new(PH.ProcInfoHandler)
        return h, h, None
    a = guarded(PH.ActiveProcInfoHandler)
    c = a.proc_event
    prove('the lock is the one waiters use', isinstance(c, Cond))
    inner = a._proc_info_handler
    rt.setattr_(a, '_proc_info_handler', Guard(c, inner))
    return a, inner, c


@unit('C24', [P + '__init__', P + 'append', P + '__getitem__', P + '__iter__', P + 'processes', P + 'process_names',
              AP + '__init__', AP + 'append', AP + '__getitem__', AP + '__iter__', AP + 'processes', AP + 'process_names',
              'launch.events.process.process_started:ProcessStarted.__init__', 'launch.events.process.process_exited:ProcessExited.__init__',
              'launch.events.process.running_process_event:RunningProcessEvent.__init__'],
      assumes=('actions are only compared: two recorded actions and a third stand for any number',))
def information():
    h, inner, c = info_handler(choose(2))
    acts = [Action(fresh_str('name %d' % i)) for i in range(3)]
    state = {}
    exited = bool(choose(2))
    for a in acts[:choose(3)]:
        state[a] = new_info(a, exited)
        do(h.append, state[a])
    settled(c, bool(state))
    if choose(2):
        a = acts[choose(3)]
        state[a] = new_info(a, bool(choose(2)))
        do(h.append, state[a])
        settled(c, True)
    prove('one record for each process', list(h) == list(state.values()))
    prove('the processes', list(do(h.processes)) == list(state))
    names = list(do(h.process_names))
    prove('their names', And(*[n.term == a.name.term for n, a in zip(names, state)], len(names) == len(state)))
    for a in acts:
        k, r = outcome(rt.getitem, h, a)
        if a in state:
            prove('the latest record of the process', k == 'ok' and r is state[a], repr(r))
        else:
            prove('nothing is known about other processes', k == 'raise' and isinstance(r, KeyError), repr(r))
    key = fresh_str('key')
    k, r = outcome(rt.getitem, h, key)
    hits = [z3.Contains(a.name.term, key.term) for a in state]
    if k == 'raise':
        prove('an unknown name is an error', And(isinstance(r, KeyError), Not(Or(False, *hits))), repr(r))
    else:
        i = list(state.values()).index(r)
        prove('the first process whose name contains the key', And(hits[i], *[Not(x) for x in hits[:i]]))
    settled(c, False)


# ---------------------------------------------------------------- waiting
def _resolver(inner, calls, procs, none, several=False):
    who, args = fresh_str('who'), fresh_str('args')

    def resolve(info_obj, *, process=None, cmd_args=None, strict_proc_matching=True):
        calls.append(strict_proc_matching)
        prove('the processes are those of the look-up', process is who and cmd_args is args)
        if none:
            raise PL.NoMatchingProcessException('none')
        if several and strict_proc_matching:
            raise Exception('several')
        return procs
    patch_global('resolveProcesses', resolve)
    E().path.nonneg = True
    return who, args


@unit('C24', [AP + 'assertWaitForShutdown', AP + 'assertWaitForStartup'],
      assumes=RES_ASSUMES + ('Condition.wait_for: returns the value of the predicate when it was last evaluated with the lock held; '
                             'it is evaluated again whenever the waiters are notified',))
def wait_for_process():
    h, inner, c = info_handler(1)
    procs, none, several = fresh_seq('processes', ProcK), bool(choose(2)), choose(4) == 3
    assume(Length(procs.term) >= 1)
    calls = []
    who, args = _resolver(inner, calls, procs, none, several)
    info = InfoOf()
    patch(PH.ProcInfoHandler, '__getitem__', lambda s, k: rt.getitem(info, k))
    down = bool(choose(2))
    kw = {'timeout': 7} if choose(2) else {}
    k, r = outcome(do, h.assertWaitForShutdown if down else h.assertWaitForStartup, who, args, **kw)
    prove('waits as long as requested', c.log == [kw.get('timeout', 10)])
    prove('the lock is released', c.held == 0)
    prove('only one process may be designated', calls == [True])
    happened = False if none else Not(RUNNING(INFO(procs.term[0]))) if down else True
    if several and not none:
        prove('several processes: an error', k == 'raise' and not isinstance(r, AssertionError), repr(r))
    elif k == 'raise':
        prove('fails only if it did not happen', And(isinstance(r, AssertionError), Not(happened)), repr(r))
    else:
        prove('succeeds only if it happened', happened)


@unit('C24', [AI + 'waitFor', AI + 'assertWaitFor'],
      assumes=RES_ASSUMES + ('assertInStream: returns, or raises AssertionError or NoMatchingProcessException (C23)',
                             'Condition.wait_for: returns the value of the predicate when it was last evaluated with the lock held'))
def wait_for_output():
    h, inner, c = io_handler(1)
    procs, known, strict = fresh_seq('processes', ProcK), bool(choose(2)), bool(choose(2))
    assume(Length(procs.term) >= 1)
    calls = []
    who, args = _resolver(inner, calls, procs, not known)
    exp, filt = fresh_str('expected'), (lambda t: t)
    result = ('found', 'not found', 'no process', 'error')[choose(4)]
    seen = []

    def in_stream(proc_output, expected_output, process, cmd_args=None, **kw):
        seen.append(kw)
        prove('recorded data is used with the lock held', c.held > 0)
        prove('the recorded output is searched', proc_output is h._io_handler or proc_output is inner)
        prove('for the expected output, in the designated process', expected_output is exp and process is who and cmd_args is args)
        if result == 'not found':
            raise AssertionError('not found')
        if result == 'no process':
            raise PL.NoMatchingProcessException('none')
        if result == 'error':
            raise ValueError('error')
    patch_global('assertInStream', in_stream)
    kw = dict(strict_proc_matching=strict, output_filter=filt, timeout=7, strip_ansi_escape_sequences=False, stream='stdout')
    if choose(2):
        kw = {}
    asserting = bool(choose(2))
    k, r = outcome(do, h.assertWaitFor if asserting else h.waitFor, exp, who, args, **kw)
    want = dict(strict_proc_matching=True, output_filter=None, strip_ansi_escape_sequences=True, stream='stderr')
    want.update(kw)
    prove('waits as long as requested', c.log == [want.pop('timeout', 10)])
    prove('as requested', len(seen) == 1 and seen[0] == want, repr(seen))
    prove('the lock is released', c.held == 0)
    if result == 'found':
        prove('found: success', k == 'ok' and (asserting or r is True), repr(r))
    elif result == 'error':
        prove('an error is reported', k == 'raise' and isinstance(r, ValueError), repr(r))
    elif k == 'raise':
        prove('failing is an assertion error, or there is no such process',
              (known and asserting and isinstance(r, AssertionError)) or (not known and type(r) is not AssertionError), repr(r))
    else:
        prove('not found: no success', not asserting and known and not r)


# ---------------------------------------------------------------- the process proxy
T = 'launch_testing.tools.process:ProcessProxy.'
IoS = z3.SeqSort(IntS)
DECODED = uf('decoded', IoS, SS)
OUT = uf('io from stdout', IntS, BoolS)


class SIO(SymObj):
    @property
    def from_stdout(self):
        return BoolK.wrap(OUT(self.term))

    @property
    def from_stderr(self):
        return BoolK.wrap(Not(OUT(self.term)))


SIOK = ObjK('io', SIO)


class Known(Fake):
    """Stands for the recorded information about one process."""


@unit('C24', [T + '__init__', T + 'stdout', T + 'stderr', T + 'output'],
      assumes=('decode_process_io: the decoded texts of the events (C23)',))
def proxy_output():
    h, inner, c = io_handler(1)
    events = fresh_seq('events', SIOK)
    a = fresh_obj('process', ProcK)
    E().path.nonneg = True
    patch(IH.IoHandler, '__getitem__', lambda s, k: (prove('the output of this process', k is a), events.vc_copy(list))[1])
    info = guarded(PH.ActiveProcInfoHandler)
    filt = (lambda t: SymStr(uf('filtered', StrS, StrS)(StrK.unwrap(t)))) if choose(2) else None
    p = new(TP.ProcessProxy, a, info, h, output_filter=filt)
    which = ('stdout', 'stderr', 'output')[choose(3)]
    want = events.term
    if which != 'output':
        want = FilterFold('stream', events, lambda x: OUT(x) if which == 'stdout' else Not(OUT(x))).full
    use_contract(PIO.decode_process_io, lambda g: VList(kind=StrK, term=DECODED(rt.to_vlist(g).as_term(SIOK))))
    r = getattr(p, which)
    t = rt.join_uf('')(StringVal(''), DECODED(want))
    prove('all text of the stream, in order', r.term == (uf('filtered', StrS, StrS)(t) if filt else t))
    prove('the process', p.target_process_action is a)


@unit('C24', [T + 'running', T + 'terminated', T + 'exit_code', T + 'wait_for_shutdown', T + 'wait_for_output'])
def proxy_state():
    h, inner, c = io_handler(1)
    info, ih, ic = info_handler(1)
    a = Action('p')
    patch_global('ensure_argument_type', lambda *x, **k: None)
    p = new(TP.ProcessProxy, a, info, h)
    state = choose(3)
    x = fresh_obj('info', InfoK)
    if state:
        assume(RUNNING(x.term) if state == 1 else Not(RUNNING(x.term)))
        d = rt.mkdict([])
        d[a] = x
        rt.setattr_(ih, '_proc_info', d)
    prove('running: it was started and did not exit', lift(p.running) == z3.BoolVal(state == 1))
    prove('terminated: it exited', lift(p.terminated) == z3.BoolVal(state == 2))
    if state == 2:
        prove('the code it exited with', IntK.unwrap(p.exit_code) == RC(x.term))
    r = do(p.wait_for_shutdown, timeout=3) if choose(2) else do(p.wait_for_shutdown)
    prove('waiting for the end succeeds exactly if it exited', lift(r) == z3.BoolVal(state == 2))
    prove('it waits for process events', len(ic.log) == 1 and ic.log[0] in (3, None))
    text, b = fresh_str('text'), fresh_bool('condition')
    patch(TP.ProcessProxy, 'output', property(lambda s: text))
    asked = []
    r = do(p.wait_for_output, lambda t: (asked.append(t), b)[1], timeout=5)
    prove('waiting for output succeeds exactly if the condition holds for the output of the running process',
          lift(r._result) == And(b.term, state == 1))
    prove('the condition is asked about the output', all(t is text for t in asked) and len(asked) == (state == 1))
    prove('it waits for output', c.log == [5])
    k, r = outcome(do, p.wait_for_output, 5)
    prove('the condition has to be callable', k == 'raise' and isinstance(r, TypeError), repr(r))
    prove('the locks are released', c.held == 0 and ic.held == 0)
