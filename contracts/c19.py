"""C19: process output is logged as whole lines, complete and in order, however it was split."""
from .execlocal import *
from .execlocal import E, M, T, tm

ASSUMES = (
    'io.StringIO: a text, a position, iteration over the lines from there on (line ends are "\\n")',
    'an incremental UTF-8 decoder returns, chunk by chunk, the decoded bytes; final=True ends the text',
    'the name, command and so on of the process, its loggers and its matchers (C06, C14, C22)')


def settled(w, cached, closed):
    """State of the buffers after any output: no complete line is held back."""
    for b in w.ios:
        held = fresh_str('held back')
        assume(Not(z3.Contains(held.term, NL)))
        logged = fresh_str('logged').term if cached else StringVal('')
        b.content = StrK.wrap(Concat(logged, held.term))
        b.pos = IntK.wrap(Length(logged) if cached else Length(held.term))
        b.splits = [(b.content.term, Length(logged), logged, held.term)]
        b.isclosed = closed


def which(w):
    """The buffers of the two streams, which show when something is received."""
    r = []
    for i, stream in enumerate((ProcessStdout, ProcessStderr)):
        n = [b.writes for b in w.ios]
        d = Chunk('nothing')
        d.text = ''
        w.handle(w.event(stream, text=d))
        for x in w.decoders:
            if d in x.given:
                x.stream = i
        r.extend(b for b, k in zip(w.ios, n) if b.writes != k)
    if len(r) != 2:
        raise Unsupported('buffers of the streams')
    return r


@unit('C19', [T + 'execute', T + '__on_process_output', T + '__on_process_output_cached', T + '__decode', T + 'get_stdout', T + 'get_stderr'],
      assumes=ASSUMES, budget=200)
def chunk():
    """One more chunk on one of the streams, after any output."""
    cached = bool(choose(2))
    w = World(cached_output=cached)
    settled(w, cached, False)
    before = [(tm(b.content), tm(b.pos), b.rest()) for b in w.ios]
    stream = [ProcessStdout, ProcessStderr][choose(2)]
    mine, other = (w.out, w.err) if stream is ProcessStdout else (w.err, w.out)
    mine.text = g0 = fresh_str('logged before')
    other.text = o0 = fresh_str('logged before on the other stream')
    data = Chunk('data')
    w.handle(w.event(stream, text=data))
    used = [d for d in w.decoders if d.given]
    prove('the chunk is decoded once', len(used) == 1 and used[0].given == [data] and used[0].finals == [False])
    d = tm(used[0].texts[0])
    changed = [i for i, b in enumerate(w.ios) if b.writes]
    prove('one buffer per stream', len(changed) == 1)
    if len(changed) != 1:
        return
    b, (c0, p0, r0) = w.ios[changed[0]], before[changed[0]]
    g, c, p = tm(mine.text), tm(b.content), tm(b.pos)
    prove('the other stream is left alone', And(tm(other.text) == tm(o0), *[
        And(tm(x.content) == y[0], tm(x.pos) == y[1]) for i, (x, y) in enumerate(zip(w.ios, before)) if i != changed[0]]))
    if cached:
        prove('the output is kept', c == Concat(c0, d))
        prove('what is logged is complete and in order', Concat(g, b.rest()) == Concat(tm(g0), r0, d))
        prove('no complete line is held back', Not(z3.Contains(b.rest(), NL)))
    else:
        prove('what is logged is complete and in order', Concat(g, c) == Concat(tm(g0), c0, d))
        prove('no complete line is held back', And(Not(z3.Contains(c, NL)), p == Length(c)))
        prove('kept output is available only if it is kept', outcome(do, w.action.get_stdout)[0] == 'raise')
    if cached:
        k, r = outcome(do, w.action.get_stdout if stream is ProcessStdout else w.action.get_stderr)
        prove('the kept output of the stream', k == 'ok' and tm(r) == c)


@unit('C19', [T + 'execute', T + '__on_process_output', T + '__on_process_output_cached', T + '__decode', T + 'get_stdout', T + 'get_stderr'],
      assumes=ASSUMES, budget=200)
def separate():
    """Nothing is held back at first, and each stream has its own buffer and decoder."""
    cached = bool(choose(2))
    w = World(cached_output=cached)
    for b in w.ios:
        prove('at first nothing was received', And(tm(b.content) == '', tm(b.pos) == 0, Not(tm(b.isclosed))))
    first = choose(2)
    datas = [Chunk('first'), Chunk('second')]
    buffers, used = [], []
    for i, d in enumerate(datas):
        n = [b.writes for b in w.ios]
        stream = [ProcessStdout, ProcessStderr][(first + i) % 2]
        w.handle(w.event(stream, text=d))
        buffers.append([i for i, b in enumerate(w.ios) if b.writes != n[i]])
        used.append([x for x in w.decoders if d in x.given])
    prove('one decoder and buffer per stream', all(len(x) == 1 for x in buffers + used)
          and buffers[0] != buffers[1] and used[0][0] is not used[1][0])


@unit('C19', [T + 'execute', T + '__flush_buffers', T + '__flush_cached_buffers', T + '__decode'],
      assumes=ASSUMES + ('a decoder that ends the text gives at most a replacement character',), budget=200)
def flush():
    """The process has exited, after any output."""
    cached = bool(choose(2))
    w = World(cached_output=cached)
    used = which(w)
    settled(w, cached, False)
    shutdown = [f for f in w.loop.futures if f is not do(w.action.get_asyncio_future)]
    down = fresh_bool('shutdown')
    for f in shutdown:
        f.isdone = down
    held = [b.rest() if cached else b.content.term for b in used]
    text = [b.content.term for b in used]
    logs = [w.out, w.err]
    before = []
    for lg in logs:
        lg.ends_line = False
        lg.text = fresh_str('logged before')
        before.append(lg.text.term)
    w.handle(w.event(ProcessExited, returncode=0))
    for i, lg in enumerate(logs):
        d = [x for x in w.decoders if x.stream == i]
        prove('decoding ends with the process', len(d) == 1 and d[0].given[1:] == [b''] and d[0].finals[1:] == [True])
        end = tm(d[0].texts[1])
        prove('what is left is logged', tm(lg.text) == Concat(before[i], held[i], end))
        prove('nothing is logged as an empty line', lg.empty is False)
        b = used[i]
        if not E().branch(tm(b.isclosed)):
            if cached:
                prove('all output is kept', tm(b.content) == Concat(text[i], end))
                prove('all of it has been logged', b.rest() == '')
            else:
                prove('nothing is logged twice', And(tm(b.content) == '', tm(b.pos) == 0))
        else:
            prove('output of a process started again is buffered', tm(down))


@unit('C19', [T + '__on_process_output', T + '__decode'], assumes=ASSUMES, budget=200)
def late():
    """Output that comes after the process has exited and its buffers were closed."""
    w = World()
    settled(w, False, True)
    stream = [ProcessStdout, ProcessStderr][choose(2)]
    mine, other = (w.out, w.err) if stream is ProcessStdout else (w.err, w.out)
    mine.text = g0 = fresh_str('logged before')
    GhostIO.made = later = []
    ended = lambda t: If(Or(t == '', z3.SuffixOf(NL, t)), StringVal(''), NL)    # noqa: E731

    def logged(k):
        # all lines so far, one newline after the last one if there was none
        ts = [x for x in E().path.specs if isinstance(x, Text)]
        if not ts:
            return None
        t = ts[-1]
        return tm(mine.text) == Concat(tm(g0), t.f(k), If(k == t.n, ended(t.text), StringVal('')))
    invariant('logged so far', logged)
    k, r = outcome(w.handle, w.event(stream, text=Chunk('data')))
    prove('late output is no error', k == 'ok', repr(r))
    used = [d for d in w.decoders if d.given]
    prove('the chunk is decoded once', len(used) == 1 and len(used[0].given) == 1)
    d = tm(used[0].texts[0])
    prove('late output is logged at once', tm(mine.text) == Concat(tm(g0), d, ended(d)))
    prove('the other stream is left alone', other.text == '')


@unit('C19', [T + '__execute_process', T + '__ProcessProtocol.on_stdout_received', T + '__ProcessProtocol.on_stderr_received',
              T + '__ProcessProtocol.drain', T + '__ProcessProtocol.connection_made'],
      assumes=('AsyncSubprocessProtocol hands the bytes read on to on_stdout_received and on_stderr_received',
               'data left in a tty is read chunk by chunk, one in each iteration of the loop; of pipes, all of it before '
               'the completion of the process is noticed'), budget=200)
def received():
    """Every chunk received is announced once, before the exit of the process."""
    w = Process()
    w.may_fail = False
    chunks = []

    def deliver(err):
        c = Chunk('chunk')
        chunks.append((c, err))
        k, r = outcome(do, w.protocol.on_stderr_received if err else w.protocol.on_stdout_received, c)
        prove('data can be received', k == 'ok', repr(r))

    def running():
        for i in range(choose(3)):
            deliver(choose(2))
        tty = tm(w.configured if w.config else w.tty)
        if E().branch(tty):
            w.left = [lambda: deliver(0), lambda: deliver(1), lambda: deliver(0)][:choose(4)]
    w.while_running = running
    k, r = outcome(w.run)
    if w.failed:
        return
    prove('the run does not fail', k == 'ok', repr(r))
    prove('all the data is received', not w.left)
    es = w.ctx.events
    prove('every chunk is announced once and in order, between start and exit', len(es) == 2 + len(chunks)
          and isinstance(es[0], launch.events.process.ProcessStarted) and isinstance(es[-1], ProcessExited)
          and all(e.text is c and type(e) is (ProcessStderr if err else ProcessStdout) and e.action is w.action
                  for e, (c, err) in zip(es[1:-1], chunks)), repr(es))
