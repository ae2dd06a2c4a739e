"""C23: text matching helpers accept exactly the matching output."""
from .common import *
import launch_testing.asserts.assert_output as AO
import launch_testing.asserts.assert_sequential_output as AS
import launch_testing.tools.output as TO
import launch_testing.tools.text as TT
import launch_testing.util.process_io as PIO

T = 'launch_testing.tools.text:'
O = 'launch_testing.tools.output:'
NL = uf('normalized line separators', StrS, StrS)
SEP_ASSUMES = ('normalize_lineseps: its result is a function of the text (bounded run compares it with the real one)',)
RE_ASSUMES = ('the re module decides where a pattern matches: a match lies at or after the given start',)


def lineseps():
    use_contract(TT.normalize_lineseps, lambda t: SymStr(NL(StrK.unwrap(t))))


def start_of(text_len):
    """Matching starts at the beginning by default, or at any position of the text."""
    if choose(2):
        return (), IntVal(0)
    s = fresh_int('start')
    assume(And(s.term >= 0, s.term <= text_len))
    return (s,), s.term


def strictness():
    return bool(choose(2))


def span(r):
    a, b = rt.unpack_n(r, 2)
    return IntK.unwrap(a), IntK.unwrap(b)


class Chain(MultiFold):
    """Spec of consecutive steps: components (position, all steps so far succeeded)."""

    def unfold(self, k):
        super().unfold(k)
        # a failed step stays failed (by induction on the definition)
        ok = self.state(self.n)[-1]
        E().assume(Implies(ok, self.state(IntVal(0))[-1]))
        E().assume(Implies(And(k >= 0, k < self.n, ok), And(self.state(k)[-1], self.state(k + 1)[-1])))

    def invariant(self):
        E().assume(Implies(self.state(self.n)[-1], self.state(IntVal(0))[-1]))
        E().path.invariants.append(('%s: every step succeeded' % self.name, lambda k: self.state(k)[-1]))
        return self


# ---------------------------------------------------------------- one expected text
@unit('C23', [T + 'build_text_match'], assumes=SEP_ASSUMES)
def text_literal():
    lineseps()
    e, text, strict = fresh_str('expected'), fresh_str('text'), strictness()
    n = NL(text.term)
    args, at = start_of(Length(n))
    m = do(TT.build_text_match, e, strict=strict)
    r = do(m, text, *args)
    if strict:
        want = z3.SubString(n, at, Length(n) - at) == e.term
        where = at
    else:
        where = z3.IndexOf(n, e.term, at)
        want = where >= 0
    if r is None:
        prove('no match: the text is not there', Not(want))
        return
    a, b = span(r)
    prove('a match: the text is there', want)
    prove('the match is the first occurrence', And(a == where, b == where + Length(e.term)))
    prove('the match lies at or after the start', And(a >= at, b >= a))


FOUND = {w: uf('regex %s found' % w, IntS, StrS, IntS, BoolS) for w in ('match', 'search')}
FIRST = {w: uf('regex %s start' % w, IntS, StrS, IntS, IntS) for w in ('match', 'search')}
LAST = {w: uf('regex %s end' % w, IntS, StrS, IntS, IntS) for w in ('match', 'search')}


class Match(Fake):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def start(self):
        return IntK.wrap(self.a)

    def end(self):
        return IntK.wrap(self.b)

    def span(self):
        return (self.start(), self.end())


class Pattern(SymObj):
    """A compiled regular expression, by its contract."""

    def _do(self, w, text, pos=0):
        t, p = StrK.unwrap(text), IntK.unwrap(pos)
        if not E().branch(FOUND[w](self.term, t, p)):
            return None
        a, b = FIRST[w](self.term, t, p), LAST[w](self.term, t, p)
        E().assume(And(a >= p, b >= a, b <= Length(t)))
        if w == 'match':
            E().assume(a == p)
        return Match(a, b)

    def match(self, text, pos=0):
        return self._do('match', text, pos)

    def search(self, text, pos=0):
        return self._do('search', text, pos)


PatK = ObjK('pattern', Pattern)


@unit('C23', [T + 'build_text_match'], assumes=SEP_ASSUMES + RE_ASSUMES)
def text_regex():
    lineseps()
    e, text, strict = fresh_obj('expected', PatK), fresh_str('text'), strictness()
    n = NL(text.term)
    args, at = start_of(Length(n))
    r = do(do(TT.build_text_match, e, strict=strict), text, *args)
    w = 'match' if strict else 'search'
    want = FOUND[w](e.term, n, at)
    if r is None:
        prove('no match: the pattern does not match', Not(want))
        return
    a, b = span(r)
    prove('a match: the pattern matches', want)
    prove('the match is where the pattern matches', And(a == FIRST[w](e.term, n, at), b == LAST[w](e.term, n, at)))
    prove('the match lies at or after the start', And(a >= at, b >= a))


# ---------------------------------------------------------------- a list of expectations
MOK, MA, MB = (uf('matcher %s' % x, IntS, s, IntS, o) for x, s, o in
               (('ok', IntS, BoolS), ('start', IntS, IntS), ('end', IntS, IntS)))


class Expectation(SymObj):
    pass


ExpK = ObjK('expectation', Expectation)


def text_id(t):
    """Identity of the text or lines a matcher is applied to."""
    if isinstance(t, VList):
        return uf('id of lines', z3.SeqSort(StrS), IntS)(t.as_term(StrK))
    return uf('id of text', StrS, IntS)(StrK.unwrap(t))


class Matcher(SymObj):
    """What building a matcher for an expectation returns: its matches lie at or after the start."""

    def __call__(self, actual, start=0):
        i, p = text_id(actual), IntK.unwrap(start)
        if not E().branch(MOK(self.term, i, p)):
            return None
        a, b = MA(self.term, i, p), MB(self.term, i, p)
        E().assume(And(a >= p, b >= a))
        return (IntK.wrap(a), IntK.wrap(b))


MatcherK = ObjK('matcher', Matcher)
MATCHER = uf('matcher of', IntS, IntS)


def _list(build, actual, ident, length):
    exps, strict = fresh_seq('expected', ExpK), strictness()
    args, at = start_of(length)

    def part(x, *, strict=False):
        prove('strictness is about the whole list, not about its parts', strict is False)
        t = MATCHER(x.term)
        E().assume(t >= 0)
        return MatcherK.wrap(t)
    use_contract(build, part)
    ms = MapFold('matchers', exps, lambda x: MATCHER(x), MatcherK)
    E().path.nonneg = True
    E().assume(ms.full[0] == MATCHER(exps.term[0]))
    tail = VList(kind=MatcherK, term=ms.full).vc_getitem(slice(1, None))
    h = ms.full[0]
    first, end0 = MA(h, ident, at), MB(h, ident, at)
    ok0 = MOK(h, ident, at)
    if strict:
        ok0 = And(ok0, first == at)

    def step(cur, m):
        p, ok = cur
        good = And(ok, MOK(m, ident, p))
        if strict:
            good = And(good, MA(m, ident, p) == p)
        return [MB(m, ident, p), good]
    chain = Chain('chain', tail, [end0, ok0], step).invariant()
    k, matcher = outcome(build, exps, strict=strict)          # the recursive calls go to the contract
    if k == 'raise':
        prove('only an empty list is rejected', And(isinstance(matcher, ValueError), Length(exps.term) == 0), repr(matcher))
        return
    prove('an empty list is rejected', Length(exps.term) > 0)
    k, res = outcome(do, matcher, actual, *args)
    prove('matching does not fail', k != 'raise', repr(res))
    pos, ok = chain.full
    if res is None:
        prove('no match: the parts do not follow each other', Not(ok))
        return
    a, b = span(res)
    prove('a match: every part is found after the end of the previous one', ok)
    prove('the match reaches from the first part to the last', And(a == first, b == pos))
    prove('the match lies at or after the start', And(a >= at, b >= a))


LIST_ASSUMES = ('the matcher of a part obeys the contract being proved (induction on the finite nesting of expectations)',)


@unit('C23', [T + 'build_text_match'], assumes=SEP_ASSUMES + LIST_ASSUMES)
def text_list():
    lineseps()
    text = fresh_str('text')
    n = NL(text.term)
    _list(TT.build_text_match, text, text_id(SymStr(n)), Length(n))


@unit('C23', [T + 'build_line_match'], assumes=LIST_ASSUMES)
def line_list():
    lines = fresh_seq('lines', StrK)
    _list(TT.build_line_match, lines, text_id(lines), Length(lines.term))


@unit('C23', [T + 'build_text_match', T + 'build_line_match'])
def unknown_expectation():
    for build in (TT.build_text_match, TT.build_line_match):
        for x in (None, 5, 2.5, object()):
            k, r = outcome(do, build, x)
            prove('anything else is rejected', k == 'raise' and isinstance(r, ValueError), repr(r))


def _lines(e, loose, whole):
    lines, strict = fresh_seq('lines', StrK), strictness()
    hit = whole if strict else loose
    args, at = start_of(Length(lines.term))
    rest = lines.vc_getitem(slice(IntK.wrap(at), None))
    if not args:
        rest = lines.vc_getitem(slice(0, None))
    every = ForAllPrefix('all lines match', rest, hit)
    none = ForAllPrefix('no line matches', rest, lambda x: Not(hit(x)))
    r = do(do(TT.build_line_match, e, strict=strict), lines, *args)
    if strict:
        if r is None:
            prove('no strict match: some line does not match', Not(every.full))
            return
        a, b = span(r)
        prove('a strict match: all lines match', every.full)
        prove('a strict match takes all lines', And(a == at, b == Length(lines.term)))
        return
    if r is None:
        prove('no match: no line matches', none.full)
        return
    a, b = span(r)
    prove('the match is one line', And(b == a + 1, a >= at, a < Length(lines.term)))
    prove('the line matches', hit(rest.term[a - at]))
    prove('it is the first line that matches', none.at(a - at))


@unit('C23', [T + 'build_line_match'])
def line_literal():
    """Strict: the whole line; otherwise part of it."""
    e = fresh_str('expected')
    _lines(e, lambda x: z3.Contains(x, e.term), lambda x: x == e.term)


@unit('C23', [T + 'build_line_match'], assumes=RE_ASSUMES)
def line_regex():
    e = fresh_obj('expected', PatK)
    hit = lambda x: FOUND['match'](e.term, x, IntVal(0))   # noqa: E731
    _lines(e, hit, hit)


# ---------------------------------------------------------------- texts in sequence
S = 'launch_testing.asserts.assert_sequential_output:'


class Search(MultiFold):
    """Searching chunk after chunk: components (position in the next chunk, not found so far)."""

    def unfold(self, k):
        super().unfold(k)
        no = self.state(self.n)[-1]
        # later chunks are searched from their beginning (by definition of the step)
        E().assume(Implies(And(k >= 0, k <= self.n), self.state(k)[0] == If(k == 0, self.shape[0], IntVal(0))))
        E().assume(Implies(no, self.state(IntVal(0))[-1]))
        E().assume(Implies(And(k >= 0, k < self.n, no), And(self.state(k)[-1], self.state(k + 1)[-1])))


@unit('C23', [S + 'SequentialTextChecker.__init__', S + 'SequentialTextChecker.assertInStdout',
              S + 'SequentialTextChecker.assertInText'])
def sequential():
    """One more text, from any state the checker may be in: after any number of successful assertions."""
    out, msg = fresh_seq('output', StrK), fresh_str('msg')
    c = new(AS.SequentialTextChecker, out)
    prove('nothing is matched in the beginning', c._array_index == 0 and c._substring_index == 0)
    if choose(2):
        i, j = fresh_int('chunk'), fresh_int('position')
        assume(And(i.term >= 0, i.term < Length(out.term), j.term >= 0, j.term <= Length(out.term[i.term])))
        rt.setattr_(c, '_array_index', i)
        rt.setattr_(c, '_substring_index', j)
    i0, j0 = IntK.unwrap(c._array_index), IntK.unwrap(c._substring_index)
    use_contract(AS.SequentialTextChecker.get_nearby_lines, lambda self: fresh_str('nearby'))
    rest = out.vc_getitem(slice(c._array_index, None))
    find = Search('search', rest, [j0, z3.BoolVal(True)],
                  lambda cur, x: [IntVal(0), And(cur[1], z3.IndexOf(x, msg.term, cur[0]) < 0)])
    E().path.invariants.append(('not found so far', lambda k: find.state(k)[1]))
    k, r = outcome(do, c.assertInText if choose(2) else c.assertInStdout, msg)
    i1, j1 = IntK.unwrap(c._array_index), IntK.unwrap(c._substring_index)
    if k == 'raise':
        prove('the assertion fails only if the text does not follow', And(isinstance(r, AssertionError), find.full[1]), repr(r))
        prove('a failed assertion changes nothing', And(i1 == i0, j1 == j0))
        return
    k = z3.simplify(i1 - i0)
    x = rest.term[k]                      # output[i0:][i1 - i0], that is output[i1]
    at = z3.IndexOf(x, msg.term, find.state(k)[0])
    prove('the rest of the chunk, or a later one from its beginning', find.state(k)[0] == If(k == 0, j0, IntVal(0)))
    prove('found in this or a later chunk', And(i1 >= i0, i1 < Length(out.term)))
    prove('the text is there, after the end of the previous match', at >= 0)
    prove('it is the first such place', find.state(i1 - i0)[1])
    prove('the next text has to follow this one', j1 == at + Length(msg.term))


BytesS = StrS                 # bytes are modelled as an opaque sequence with concatenation
DEC = uf('decoder output', StrS, StrS, StrS)   # (bytes seen before, new bytes) -> text


class Decoder(Fake):
    """Contract of an incremental decoder: its output depends on all bytes of its stream so far."""

    def __init__(self, errors='strict'):
        prove('undecodable bytes do not make decoding fail', errors in ('replace', 'backslashreplace', 'ignore'))
        self.seen = ''

    def decode(self, data, final=False):
        t = DEC(StrK.unwrap(self.seen), StrK.unwrap(data))
        rt.setattr_(self, 'seen', self.seen + data)
        return StrK.wrap(t)


IOTEXT, IOOUT = uf('io text', IntS, StrS), uf('io from stdout', IntS, BoolS)


class IO(SymObj):
    """A captured ProcessIO event."""
    @property
    def text(self):
        return StrK.wrap(IOTEXT(self.term))

    @property
    def from_stdout(self):
        return BoolK.wrap(IOOUT(self.term))

    @property
    def from_stderr(self):
        return BoolK.wrap(Not(IOOUT(self.term)))


IOK = ObjK('io', IO)
DECODER_ASSUMES = ('an incremental decoder of codecs: its output is a function of the bytes it got before and now',)


@unit('C23', ['launch_testing.util.process_io:decode_process_io'], assumes=DECODER_ASSUMES)
def decoding():
    """Every stream is decoded as a whole, so that characters split between chunks are not lost."""
    ios = fresh_seq('ios', IOK)
    made = []

    def new_decoder(name):
        prove('the output is decoded as UTF-8', name.lower().replace('_', '-') in ('utf-8', 'utf8'))
        return lambda errors='strict': new(Decoder, errors)
    patch_global('codecs', Facade(__import__('codecs'), getincrementaldecoder=new_decoder))
    E().path.nonneg = True

    def step(cur, x):
        o, e, out = cur
        t = IOTEXT(x)
        return [If(IOOUT(x), Concat(o, t), o), If(IOOUT(x), e, Concat(e, t)),
                Concat(out, Unit(DEC(If(IOOUT(x), o, e), t)))]
    want = MultiFold('decoded', ios, [StringVal(''), StringVal(''), Empty(z3.SeqSort(StrS))], step)
    src = ios
    if choose(2):
        src = rt.call(iter, ios)
    r = do(PIO.decode_process_io, src)
    prove('the texts of the events, each stream decoded as a whole', r.as_term(StrK) == want.full[2])


# ---------------------------------------------------------------- assertions about captured output
A = 'launch_testing.asserts.assert_output:'
IoS = z3.SeqSort(IntS)
IOSOF = uf('output of process', IntS, IoS)
KEPT = {'stdout': uf('stdout of', IoS, IoS), 'stderr': uf('stderr of', IoS, IoS)}
DECODED = uf('decoded', IoS, z3.SeqSort(StrS))
ANSI = uf('without escape sequences', StrS, StrS)
FILTERED = uf('filtered', StrS, StrS)


class Proc(SymObj):
    @property
    def process_details(self):
        return {'name': StrK.wrap(uf('process name', IntS, StrS)(self.term))}


ProcK = ObjK('process', Proc)


class Recorded(Fake):
    """The captured output: every process has some sequence of events."""

    def __getitem__(self, p):
        return VList(kind=IOK, term=IOSOF(p.term))


def of_stream(stream):
    return (lambda x: IOOUT(x)) if stream == 'stdout' else (lambda x: Not(IOOUT(x)))


def streams():
    """Spec functions over every sequence of events that is read: its stdout and stderr parts."""
    def hook(s):
        if s.kind is IOK:
            for st in KEPT:
                f = FilterFold(st, s, of_stream(st))
                E().assume(f.full == KEPT[st](s.term))
    E().path.seq_hooks.append(hook)
    E().path.nonneg = True
    use_contract(PIO.decode_process_io, lambda g: VList(kind=StrK, term=DECODED(rt.to_vlist(g).as_term(IOK))))


def joined(t):
    return rt.join_uf('')(StringVal(''), t)


CAPTURE_ASSUMES = ('resolveProcesses: one or more processes, or an error (C24)',
                   'decode_process_io: the decoded texts of the events (unit decoding)',
                   'build_text_match: a matcher of the expectation (units text_*)',
                   'remove_ansi_escape_sequences of osrf_pycommon: a function of the text')


def _asserting():
    out, procs = Recorded(), fresh_seq('processes', ProcK)
    assume(Length(procs.term) >= 1)
    exp, who, args, strict = fresh_obj('expected', ExpK), fresh_str('who'), fresh_str('args'), bool(choose(2))
    none = choose(8) == 7

    def resolve(info_obj, *, process=None, cmd_args=None, strict_proc_matching=True):
        prove('the processes are those of the look-up', info_obj is out and process is who and cmd_args is args)
        prove('strictness is passed on', strict_proc_matching is strict)
        if none:
            raise LookupError('no such process')
        return procs

    def matcher(x, *, strict=False):
        prove('the expectation is the one given, not strict', x is exp and strict is False)
        t = MATCHER(exp.term)
        E().assume(t >= 0)
        return MatcherK.wrap(t)
    patch_global('resolveProcesses', resolve)
    use_contract(TT.build_text_match, matcher)
    patch_global('remove_ansi_escape_sequences', lambda t: SymStr(ANSI(StrK.unwrap(t))))
    streams()
    return out, procs, exp, who, args, strict, none


@unit('C23', [A + 'assertInStream', A + 'assertInStdout', A + 'assertInStderr'], assumes=CAPTURE_ASSUMES)
def in_stream():
    out, procs, exp, who, args, strict, none = _asserting()
    stream = ('stdout', 'stderr')[choose(2)]
    kw, ansi, filt = {}, True, None
    how = choose(3)
    if how == 1:
        ansi = kw['strip_ansi_escape_sequences'] = False
    elif how == 2:
        filt = kw['output_filter'] = lambda t: SymStr(FILTERED(StrK.unwrap(t)))
    if strict is False or choose(2):
        kw['strict_proc_matching'] = strict
    if choose(2):
        f, kw['stream'] = AO.assertInStream, stream
    else:
        f = AO.assertInStdout if stream == 'stdout' else AO.assertInStderr

    def text(p):
        t = joined(DECODED(KEPT[stream](IOSOF(p))))
        t = ANSI(t) if ansi else t
        return FILTERED(t) if filt else t
    nowhere = ForAllPrefix('nowhere', procs,
                           lambda p: Not(MOK(MATCHER(exp.term), text_id(SymStr(text(p))), IntVal(0))))
    k, r = outcome(do, f, out, exp, who, args, **kw)
    if none:
        prove('no process: an error', k == 'raise' and isinstance(r, LookupError))
    elif k == 'raise':
        prove('fails only if no process wrote the text', And(isinstance(r, AssertionError), nowhere.full), repr(r))
    else:
        prove('succeeds only if a process wrote the text', Not(nowhere.full))


@unit('C23', [A + 'assertInStream'], assumes=CAPTURE_ASSUMES)
def in_stream_arguments():
    out, procs, exp, who, args, strict, none = _asserting()
    assume(not none)
    if choose(2):
        s = fresh_str('stream')
        assume(And(s.term != 'stdout', s.term != 'stderr'))
        E().path.invariants.append(('no process is passed over', lambda k: k == 0))
        k, r = outcome(do, AO.assertInStream, out, exp, who, args, stream=s, strict_proc_matching=strict)
    else:
        k, r = outcome(do, AO.assertInStream, out, exp, who, args, output_filter=5, strict_proc_matching=strict)
    prove('a wrong argument is an error', k == 'raise' and isinstance(r, ValueError), repr(r))


@unit('C23', [S + 'assertSequentialStdout'], assumes=CAPTURE_ASSUMES)
def sequential_output():
    out, procs = Recorded(), fresh_seq('processes', ProcK)
    assume(Length(procs.term) >= 1)
    who, args = fresh_str('who'), fresh_str('args')

    def resolve(info_obj, *, process=None, cmd_args=None, strict_proc_matching=True):
        prove('the process is the one of the look-up', info_obj is out and process is who and cmd_args is args)
        prove('only one process may match', strict_proc_matching is True)
        return procs
    patch_global('resolveProcesses', resolve)
    streams()
    cm = do(AS.assertSequentialStdout, out, who, args)
    c = cm.__enter__()
    got = c._output
    prove('the texts are those of the process', got.as_term(StrK) == DECODED(IOSOF(procs.term[0])))
    prove('checking begins at the start', c._array_index == 0 and c._substring_index == 0)
    err = AssertionError('text not found')
    k, r = outcome(cm.__exit__, type(err), err, None) if choose(2) else outcome(cm.__exit__, None, None, None)
    prove('a failed check is not hidden', (k == 'raise' and r is err) or r is None or r is False)


@unit('C23', [O + 'expect_output'], assumes=CAPTURE_ASSUMES[2:] + ('build_line_match: a matcher of the expectation (units line_*)',))
def expect():
    kw, strict, ansi = {}, bool(choose(2)), bool(choose(2))
    text, lines = (fresh_str('text') if choose(2) else None), (fresh_seq('lines', StrK) if choose(2) else None)
    et, el = (fresh_obj('expected text', ExpK) if choose(2) else None), (fresh_obj('expected lines', ExpK) if choose(2) else None)
    used = []

    def build(what):
        def b(x, *, strict=False):
            used.append((what, x, strict))
            t = MATCHER(x.term)
            E().assume(t >= 0)
            return MatcherK.wrap(t)
        return b
    use_contract(TT.build_text_match, build('text'))
    use_contract(TT.build_line_match, build('lines'))
    patch_global('remove_ansi_escape_sequences', lambda t: SymStr(ANSI(StrK.unwrap(t))))
    maps = []

    def hook(s):
        if s.kind is StrK:
            m = MapFold('plain', s, ANSI, StrK)
            E().assume(m.full == uf('plain lines', z3.SeqSort(StrS), z3.SeqSort(StrS))(s.term))
    E().path.seq_hooks.append(hook)
    k, r = outcome(do, TO.expect_output, text, lines=lines, expected_text=et, expected_lines=el,
                   strip_ansi_escape_sequences=ansi, strict=strict)
    if (text is None) == (lines is None) or (et is None) == (el is None):
        prove('exactly one text and one expectation', k == 'raise' and isinstance(r, ValueError), repr(r))
        return
    prove('the output is matched', k == 'ok', repr(r))
    prove('with the one expectation and strictness', len(used) == 1 and used[0] == (
        'text' if et is not None else 'lines', et if et is not None else el, strict))
    if et is not None:
        t = text.term if text is not None else rt.join_uf('\n')(StringVal('\n'), lines.term)
        i = text_id(SymStr(ANSI(t) if ansi else t))
        x = et
    else:
        l = lines.term if lines is not None else uf('str.splitlines', StrS, z3.SeqSort(StrS))(text.term)
        if ansi:
            l = uf('plain lines', z3.SeqSort(StrS), z3.SeqSort(StrS))(l)
        i = text_id(VList(kind=StrK, term=l))
        x = el
    prove('it matches exactly if the matcher of the expectation does', lift(r) == MOK(MATCHER(x.term), i, IntVal(0)))


# ---------------------------------------------------------------- filters and expectations from files
PAT = uf('compiled', StrS, IntS)


class _LineK(type(StrK)):
    """Lines of an output; remembers the line at hand, over which the spec of its filter is stated."""

    def wrap(self, t):
        E().path.line = t
        return super().wrap(t)


LineK = _LineK()


class Output(Fake):
    def __init__(self):
        self.lines = E().fresh('lines', z3.SeqSort(StrS))

    def splitlines(self, keepends=False):
        prove('line ends are kept', keepends is True)
        return VList(kind=LineK, term=self.lines)


@unit('C23', [O + 'basic_output_filter'], assumes=RE_ASSUMES + ('str.splitlines: any sequence of lines',))
def output_filter():
    """Exactly the lines that begin with a filtered prefix or match a filtered pattern are dropped."""
    prefixes, patterns = (fresh_seq('prefixes', StrK) if choose(2) else None), (fresh_seq('patterns', StrK) if choose(2) else None)

    def compiled(p):
        t = PAT(StrK.unwrap(p))
        E().assume(t >= 0)
        return PatK.wrap(t)
    import re
    patch_global('re', Facade(re, compile=compiled))
    E().path.nonneg = True
    by_prefix, by_pattern = uf('no prefix fits', StrS, BoolS), uf('no pattern matches', StrS, BoolS)
    kw = {}
    if prefixes is not None:
        kw['filtered_prefixes'] = prefixes
    if patterns is not None:
        kw['filtered_patterns'] = patterns
        comp = MapFold('compiled patterns', patterns, PAT, PatK)
    f = do(TO.basic_output_filter, **kw)
    out = Output()

    def hook(s):
        line = getattr(E().path, 'line', None)
        if line is None:
            return
        if prefixes is not None and s.kind is StrK and z3.eq(s.term, prefixes.term):
            q = ForAllPrefix('no prefix', s, lambda p: Not(z3.PrefixOf(p, line)))
            E().assume(q.full == by_prefix(line))
        elif s.kind is PatK:
            q = ForAllPrefix('no pattern', s, lambda p: Not(FOUND['match'](p, line, IntVal(0))))
            E().assume(q.full == by_pattern(line))
            prove('the patterns are those given', s.term == comp.full)
    E().path.seq_hooks.append(hook)

    def keep(x):
        a = by_prefix(x) if prefixes is not None else And(Not(z3.PrefixOf('pid', x)), Not(z3.PrefixOf('rc', x)))
        return And(a, by_pattern(x)) if patterns is not None else a
    want = FilterFold('kept', VList(kind=StrK, term=out.lines), keep)
    r = do(f, out)
    prove('the kept lines, in order', r.term == joined(want.full))


class Opened(Fake):
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        return self.text


@unit('C23', [O + 'expected_output_from_file'], assumes=('open and os.path.isfile of the file system',))
def from_file():
    import os
    import re
    path, enc = fresh_str('path'), (fresh_str('encoding') if choose(2) else None)
    content = {n: fresh_str(n) for n in ('txt', 'regex')}
    exists = {n: fresh_bool(n + ' exists') for n in content}

    def which(p):
        for n in content:
            if E().branch(StrK.unwrap(p) == Concat(path.term, StringVal('.' + n))):
                return n
        return None

    def isfile(p):
        n = which(p)
        return exists[n] if n else fresh_bool('exists')

    def opened(p, mode='r', *a, encoding=None, **k):
        n = which(p)
        prove('an existing file is opened', n is not None and exists[n].term if n else False)
        prove('it is read with the given encoding', encoding is enc and mode in ('r', 'rt'))
        return Opened(content[n])
    use_contract(os.path.isfile, isfile)
    patch_global('open', opened)
    patch(TO, 'open', opened)

    def compiled(p):
        t = PAT(StrK.unwrap(p))
        E().assume(t >= 0)
        return PatK.wrap(t)
    patch_global('re', Facade(re, compile=compiled))
    E().path.nonneg = True
    split = uf('str.splitlines', StrS, z3.SeqSort(StrS))
    pats = MapFold('patterns', VList(kind=StrK, term=split(content['regex'].term)), PAT, PatK)
    k, r = outcome(do, TO.expected_output_from_file, path, encoding=enc)
    t, x = exists['txt'].term, exists['regex'].term
    if k == 'raise':
        prove('an error only if there is no file', And(isinstance(r, RuntimeError), Not(t), Not(x)), repr(r))
    elif r.kind is StrK:
        prove('the lines of the text file', And(t, r.as_term(StrK) == split(content['txt'].term)))
    else:
        prove('the patterns of the file, if there is no text file', And(Not(t), x, r.as_term(PatK) == pats.full))
