"""C21: signal handlers are dispatched per signal and restored afterwards."""
import asyncio
import os
import platform
import signal
import threading

from .common import *
import launch.utilities.signal_management as M
from launch.utilities import AsyncSafeSignalManager as Manager

S = 'launch.utilities.signal_management:AsyncSafeSignalManager.'
RAISES = uf('handler_raises', IntS, BoolS)


class Handler(SymObj):
    def __call__(self, signum):
        emit('called', self, signum)
        if E().branch(RAISES(self.term)):
            raise RuntimeError('handler')


HandlerK = ObjK('handler', Handler)


class _SigK(type(IntK)):
    """Signal numbers, named or not."""

    def unwrap(self, py):
        return IntVal(int(py)) if isinstance(py, signal.Signals) else super().unwrap(py)


SigK = _SigK()


class OS:
    """The wake-up descriptor of the process and the sockets."""

    def __init__(self, fd):
        self.fd, self.forwarded, self.fail = fd, [], False
        self.next = 0

    def number(self):
        n = E().fresh('descriptor', IntS)
        E().assume(n >= 0)
        return IntK.wrap(n)


class Sock(Fake):
    world = None

    def __init__(self, fileno=None):
        self.fd = fileno if fileno is not None else Sock.world.number()
        self.open_, self.detached = True, False

    def setblocking(self, b):
        self.blocking = b

    def fileno(self):
        if not self.open_:
            return -1
        return self.fd

    def detach(self):
        self.open_ = False
        self.detached = True
        return self.fd

    def close(self):
        self.open_ = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def send(self, data):
        Sock.world.sent(self.fd, data)


class Loop(Fake):
    def __init__(self, native=True):
        self.readers, self.native, self.soon, self.failures = {}, native, [], []
        self.stopped = self.closed = False

    def add_reader(self, fd, f, *args):
        if not self.native:
            raise NotImplementedError()
        self.readers[id(fd)] = (f, args)

    def remove_reader(self, fd):
        prove('the reader that was added is removed', id(fd) in self.readers)
        self.readers.pop(id(fd), None)
        return True

    def call_soon_threadsafe(self, f, *a):
        self.soon.append((f, a))
        if f == self.stop:
            self.stop()

    def stop(self):
        self.stopped = True

    def run_forever(self):
        pass

    def close(self):
        self.closed = True
        self.readers.clear()


def world(native):
    """The system as the manager sees it."""
    fd0 = fresh_int('wakeup descriptor')
    E().assume(fd0.term >= -1)
    w = OS(fd0)
    w.restored = []
    Sock.world = w
    w.socks, w.background = [], []

    w.read_end = Sock

    def pair():
        w.socks = [Sock(), w.read_end()]
        w.all.extend(w.socks)
        return tuple(w.socks)
    w.all = []

    def set_wakeup_fd(fd, *, warn_on_full_buffer=True):
        if w.fail:
            raise ValueError('set_wakeup_fd only works in main thread')
        old, w.fd = w.fd, fd
        return old

    def no_disposition(*a):
        prove('signal dispositions are not touched', False, repr(a))
    patch(M, 'socket', Facade(M.socket, socketpair=pair, socket=Sock))
    sig = Facade(signal, set_wakeup_fd=set_wakeup_fd, signal=no_disposition)
    w.original = set_wakeup_fd
    w.signal = sig
    patch(M, 'signal', sig)
    name = '_AsyncSafeSignalManager__set_wakeup_fd'
    if name not in Manager.__dict__:
        raise Unsupported('no %s' % name)
    patch(Manager, name, staticmethod(set_wakeup_fd))
    patch(M, 'platform', Facade(platform, system=lambda: w.system))
    w.system = 'Linux'

    def background():
        w.background.append(Loop())
        return w.background[-1]
    patch(M, 'asyncio', Facade(asyncio, SelectorEventLoop=background, set_event_loop=lambda lp: None))

    class Thread(Fake):
        def __init__(self, target=None, daemon=None, **k):
            self.target = target

        def start(self):
            self.target()

        def join(self, timeout=None):
            pass
    patch(M, 'threading', Facade(threading, Thread=Thread))
    return w, fd0


def is_method(f, m):
    return getattr(f, '__self__', None) is m


def same_fd(a, b):
    return IntK.unwrap(a) == IntK.unwrap(b)


def current():
    return Manager.__dict__.get('_AsyncSafeSignalManager__current')


@unit('C21', [S + '__init__', S + '__enter__', S + '__exit__', S + '_AsyncSafeSignalManager__add_signal_readers',
              S + '_AsyncSafeSignalManager__remove_signal_readers', S + '_AsyncSafeSignalManager__install_signal_writers',
              S + '_AsyncSafeSignalManager__uninstall_signal_writers', S + '_AsyncSafeSignalManager__chain',
              S + '_AsyncSafeSignalManager__unchain', S + '_AsyncSafeSignalManager__chain_wakeup_handle'],
      budget=200,
      assumes=('signal.set_wakeup_fd installs a descriptor and returns the one before', 'socketpair, add_reader and remove_reader as documented',
               'managers are left in the reverse order in which they are entered'))
def left_as_found():
    """Whatever happens within, leaving a manager (or several) restores what it found."""
    patch(Manager, '_AsyncSafeSignalManager__current', None)
    native = bool(choose(2))
    w, fd0 = world(native)
    w.system = ['Linux', 'Windows'][choose(2)]
    loop = Loop(native)
    expected = fd0
    depth = 1 + choose(2)
    managers = []
    twice = bool(choose(2)) if depth == 1 else False
    for round_ in range(2 if twice else 1):
        del managers[:]
        for d in range(depth):
            m = new(Manager, loop) if not (twice and round_) else first
            first = m
            before = w.fd
            r = do(m.__enter__)
            managers.append((m, before, w.socks[0], w.socks[1]))
            prove('the manager is given', r is m)
            prove('it gets the signals', same_fd(w.fd, w.socks[0].fd))
            prove('the end written by the system is not the one read', w.socks[0] is not w.socks[1])
            prove('both ends never block', w.socks[0].blocking is False and w.socks[1].blocking is False)
            reader_loop = loop if native else w.background[-1]
            got = reader_loop.readers.get(id(w.socks[1].fd))
            prove('the loop reads the other end', got is not None)
            if got and native:
                prove('and handles signals', is_method(got[0], m) and not got[1])
            if got and not native:
                prove('and handles signals in its own loop', got[0] == loop.call_soon_threadsafe and len(got[1]) == 1 and is_method(got[1][0], m))
        other = None
        act = choose(3)
        if act:
            other = fresh_int('descriptor of another library')
            E().assume(other.term >= -1)
            main = act == 1
            patch(M, 'threading', Facade(threading, current_thread=lambda: main, main_thread=lambda: True, Thread=M.threading.Thread))
            k, r = outcome(w.signal.set_wakeup_fd, other)
            if main:
                prove('a descriptor set meanwhile replaces the one before', k == 'ok' and same_fd(r, expected), repr(r))
                expected = other
            else:
                prove('other threads cannot set one', k == 'raise' and isinstance(r, ValueError), repr(r))
            prove('the manager still gets the signals', same_fd(w.fd, managers[-1][2].fd))
        exc = RuntimeError('inside') if choose(2) else None
        while managers:
            m, before, ws, rs = managers.pop()
            k, r = outcome(do, m.__exit__, type(exc) if exc else None, exc, None)
            prove('a manager can be left', k == 'ok', repr(r))
            prove('exceptions within are passed on', not r)
            prove('its sockets are closed', not ws.open_ and not rs.open_)
            if managers:
                prove('the manager around it gets the signals again', same_fd(w.fd, managers[-1][2].fd))
                prove('descriptors set meanwhile still do not replace that manager', w.signal.set_wakeup_fd is not w.original)
        prove('the wake-up descriptor is the previous one', same_fd(w.fd, expected))
        prove('signal.set_wakeup_fd is the previous one', w.signal.set_wakeup_fd is w.original)
        prove('no manager is active', current() is None)
        prove('no reader is left', not loop.readers and all(b.closed and b.stopped for b in w.background))


@unit('C21', [S + '__enter__'])
def not_entered():
    """A manager that cannot be entered changes nothing."""
    patch(Manager, '_AsyncSafeSignalManager__current', None)
    native = bool(choose(2))
    w, fd0 = world(native)
    loop = Loop(native)
    m = new(Manager, loop)
    w.fail = True
    k, r = outcome(do, m.__enter__)
    prove('the error is reported', k == 'raise' and isinstance(r, ValueError), repr(r))
    prove('the wake-up descriptor is unchanged', same_fd(w.fd, fd0))
    prove('no reader is left', not loop.readers and all(b.closed for b in w.background))
    prove('no socket is left', not any(s.open_ for s in w.all))
    prove('no manager is active', current() is None and w.signal.set_wakeup_fd is w.original)
    w.fail = False
    do(m.__enter__)
    do(m.__exit__, None, None, None)
    prove('the wake-up descriptor is the previous one', same_fd(w.fd, fd0))


@unit('C21', [S + 'handle'])
def registration():
    """For every signal and any handlers registered before."""
    patch(Manager, '_AsyncSafeSignalManager__current', None)
    w, fd0 = world(True)
    m = new(Manager, Loop())
    prove('a new manager handles nothing', len(private(m, '__handlers')) == 0)
    hs = fresh_dict('handlers', SigK, HandlerK)
    old = snap(hs)
    if not set_private(m, '__handlers', hs):
        raise Unsupported('no __handlers')
    sigs = sorted(signal.Signals)
    s = sigs[choose(len(sigs))]
    how = choose(3)
    arg = s if choose(2) else int(s)
    had = E().branch(lift(rt.in_(int(s), old)))
    if how == 0:
        h = fresh_obj('new handler', HandlerK)
        k, r = outcome(do, m.handle, arg, h)
        want = snap(old)
        want[int(s)] = h
    elif how == 1:
        k, r = outcome(do, m.handle, arg, None)
        want = snap(old)
        want.pop(int(s), None)
    else:
        k, r = outcome(do, m.handle, arg, 'no callable')
        prove('only callables are handlers', k == 'raise' and isinstance(r, ValueError), repr(r))
        same('nothing is registered on an error', private(m, '__handlers'), old)
        return
    prove('registering works', k == 'ok', repr(r))
    same('exactly the handler of this signal is changed', private(m, '__handlers'), want)
    if had:
        prove('the handler replaced is returned', HandlerK.unwrap(r) == HandlerK.unwrap(old[int(s)]))
    else:
        prove('no handler is returned if there was none', r is None or AnyS.is_none(AnyK.unwrap(r)))


@unit('C21', [S + 'handle'])
def no_such_signal():
    patch(Manager, '_AsyncSafeSignalManager__current', None)
    world(True)
    m = new(Manager, Loop())
    for n in (-1, 0, 9999):
        k, r = outcome(do, m.handle, n, lambda s: None)
        prove('numbers that are no signal are rejected', k == 'raise' and isinstance(r, ValueError) and not private(m, '__handlers'), repr(r))


@unit('C21', [S + '_AsyncSafeSignalManager__handle_signal'], budget=200,
      assumes=('recv yields the numbers of the signals received, each once, in order',
               'handlers do not register handlers while they run (bounded)'))
def dispatch():
    """Any number of signals read in any number of portions."""
    patch(Manager, '_AsyncSafeSignalManager__current', None)
    cut_while(lambda site: '__handle_signal' in site)
    w, fd0 = world(True)
    quiet()
    loop = Loop()
    loop.call_exception_handler = lambda c: emit('reported', 'handler' if isinstance(c.get('exception'), RuntimeError) else 'other')
    m = new(Manager, loop)
    hs = fresh_dict('handlers', SigK, HandlerK)
    if not set_private(m, '__handlers', hs):
        raise Unsupported('no __handlers')
    hs0, prev = snap(hs), fd0
    tr = new_trace()
    empty = Empty(z3.SeqSort(EvK.sort))
    ghost_ = Fake()
    track(ghost_)
    rt.setattr_(ghost_, 'want', VList(kind=EvK, term=empty))
    rt.setattr_(ghost_, 'received', VList(kind=IntK, term=Empty(z3.SeqSort(IntS))))
    rt.setattr_(ghost_, 'forwarded', VList(kind=IntK, term=Empty(z3.SeqSort(IntS))))
    p = E().path
    p.chunk = None

    def step(a, x):
        known = lift(rt.in_(IntK.wrap(x), hs0))
        h = HandlerK.unwrap(hs0.at(IntK.wrap(x)))
        return If(known, If(RAISES(h), Concat(a, Unit(ev('called', HandlerK.wrap(h), IntK.wrap(x))), Unit(ev('reported', 'handler'))),
                            Concat(a, Unit(ev('called', HandlerK.wrap(h), IntK.wrap(x))))), a)

    class R(Sock):
        def recv(self, n):
            prove('reads something', n > 0)
            how = choose(4)
            if how == 1:
                raise InterruptedError()
            if how == 2:
                raise BlockingIOError()
            if how == 3:
                p.ended = True
                return b''
            chunk = fresh_seq('signals', IntK)
            E().assume(Length(chunk.term) > 0)
            D = Fold('dispatched', chunk, empty, step)
            ghost_.want.extend(VList(kind=EvK, term=D.full))
            ghost_.received.extend(VList(kind=IntK, term=chunk.term))
            return chunk

    w.read_end = R
    do(m.__enter__)
    (reader, args), = loop.readers.values()

    def write(fd, data):
        prove('signals are forwarded to the previous descriptor', And(same_fd(fd, prev), prev.term >= 0))
        ghost_.forwarded.extend(VList(kind=IntK, term=rt.to_vlist(data).as_term(IntK)))
        return 1
    patch(M, 'os', Facade(os, write=write))

    def handled(k):
        return E().path.trace.as_term(EvK) == ghost_.want.as_term(EvK)

    def forwarded(k):
        return Implies(prev.term >= 0, ghost_.forwarded.as_term(IntK) == ghost_.received.as_term(IntK))
    invariant('every signal received is handled once', handled)
    invariant('every signal received is forwarded once', forwarded)
    invariant('nothing is forwarded without a previous descriptor', lambda k: Implies(prev.term < 0, Length(ghost_.forwarded.as_term(IntK)) == 0))
    k, r = outcome(do, reader, *args)
    prove('handling signals does not fail', k == 'ok', repr(r))
    prove('every signal received is passed once to the handler registered for it, in order', handled(0))
    prove('every signal received is forwarded once, in order, to the previous descriptor', forwarded(0))
    prove('and to no other', Implies(prev.term < 0, Length(ghost_.forwarded.as_term(IntK)) == 0))
