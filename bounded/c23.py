import os
import re
import tempfile
from types import SimpleNamespace

from launch_testing.asserts import (assertInStderr, assertInStdout, assertSequentialStdout, SequentialTextChecker)
from launch_testing.io_handler import ActiveIoHandler, IoHandler
from launch_testing.tools.output import basic_output_filter, expect_output, expected_output_from_file
from launch_testing.tools.text import build_line_match, build_text_match, normalize_lineseps
from .common import *

RULE = ('expected texts, patterns and nested lists of both (up to 3 deep) against texts and lines over a small alphabet with '
        'line ends, escape sequences and characters of several bytes, strict or not, from any start; captured output cut into '
        'arbitrary chunks; non-trivial: distinct (expectation, text) pairs')


def text_match(e, t, strict, at=0):
    """Reference: (start, end) of the match in the normalized text, or None."""
    n = t.replace('\r\n', '\n')
    if isinstance(e, str):
        if strict:
            return (at, at + len(e)) if n[at:] == e else None
        for i in range(at, len(n) + 1):
            if n[i:i + len(e)] == e:
                return i, i + len(e)
        return None
    if hasattr(e, 'pattern'):
        m = e.match(n, at) if strict else e.search(n, at)
        return m and m.span()
    return sequence(e, lambda x, p: text_match(x, n, False, p), strict, at)


def line_match(e, lines, strict, at=0):
    if isinstance(e, str) or hasattr(e, 'pattern'):
        if isinstance(e, str):
            hit = (lambda x: x == e) if strict else (lambda x: e in x)
        else:
            hit = lambda x: e.match(x) is not None   # noqa: E731
        hits = [i for i in range(at, len(lines)) if hit(lines[i])]
        if strict:
            return (at, len(lines)) if len(hits) == len(lines) - at else None
        return (hits[0], hits[0] + 1) if hits else None
    return sequence(e, lambda x, p: line_match(x, lines, False, p), strict, at)


def sequence(parts, one, strict, at):
    first = None
    for x in parts:
        m = one(x, at)
        if m is None or (strict and m[0] != at):
            return None
        first = m[0] if first is None else first
        at = m[1]
    return first, at


def io(data, out, action):
    return SimpleNamespace(text=data, from_stdout=out, from_stderr=not out, action=action, process_name=action.process_details['name'])


def proc(name, *args):
    import launch.actions
    a = launch.actions.ExecuteProcess(cmd=[name])
    a.process_description._Executable__final_name = name
    details = {'name': name, 'cmd': [name, *args]}
    type_ = type('P', (launch.actions.ExecuteProcess,), {'process_details': property(lambda s: details)})
    a.__class__ = type_
    return a


def run(h):
    r = h.rng
    atoms = ['a', 'b', 'ab', 'aa', '\n', '\r\n', ' ', '', 'é', 'ba', '\U0001f600', 'a\nb', '\r']
    pats = ['a', 'a+', '^b', 'b$', '(?m)^a', 'a.*b', '', '[ab]', 'b?', '(?s)a.b', '\\n']

    def text(n=8):
        return ''.join(r.choice(atoms) for _ in range(r.randint(0, n)))

    def exp(depth=2):
        k = r.random()
        if depth and k < .45:
            return [exp(depth - 1) for _ in range(r.randint(1, 3))]
        if k < .75:
            return text(2).replace('\r', '')
        return re.compile(r.choice(pats))

    def show(e):
        return repr(e)

    def single(e, t, strict, at):
        def f():
            n = t.replace('\r\n', '\n')
            eq(normalize_lineseps(t), n, 'normalized')
            p = min(at, len(n))
            m = build_text_match(e, strict=strict)
            eq(m(t, p), text_match(e, t, strict, p), 'match')
            eq(m(t), text_match(e, t, strict), 'match from the start')
            eq(expect_output(expected_text=e, text=t, strict=strict, strip_ansi_escape_sequences=False),
               text_match(e, t, strict) is not None, 'expect_output')
        h.case('text', (show(e), t, strict, at), f)

    def lines_(e, ls, strict, at):
        def f():
            p = min(at, len(ls))
            m = build_line_match(e, strict=strict)
            eq(m(ls, p), line_match(e, ls, strict, p), 'match')
            eq(m(ls), line_match(e, ls, strict), 'match from the start')
            want = line_match(e, ls, strict) is not None
            eq(expect_output(expected_lines=e, lines=list(ls), strict=strict), want, 'expect_output')
            if ls and all(x.splitlines() == [x] for x in ls):
                eq(expect_output(expected_lines=e, text='\n'.join(ls), strict=strict), want, 'lines of a text')
                eq(expect_output(expected_text=e, lines=list(ls), strict=strict),
                   text_match(e, '\n'.join(ls), strict) is not None, 'text of lines')
        h.case('lines', (show(e), tuple(ls), strict, at), f)
    for _ in range(h.n(700)):
        e, t = exp(), text()
        if '\r\r\n' not in t:
            single(e, t, r.random() < .5, r.choice([0, 0, 1, 2, 5]))
        ls = [r.choice(['a', 'b', 'ab', 'aa', 'b a', 'é', '']) for _ in range(r.randint(0, 5))]
        le = exp() if r.random() < .5 else [r.choice(ls or ['a']) for _ in range(r.randint(1, 3))]
        lines_(le, ls, r.random() < .5, r.choice([0, 0, 1, 3]))
    for a in range(0, 4):                       # a sequence taken from the text itself
        for b in range(a, 5):
            ls = ['l%d' % i for i in range(5)]
            lines_(ls[a:b + 1], ls, True, a)
            lines_(ls[a:b + 1], ls, False, 0)
            lines_(list(reversed(ls[a:b + 1])), ls, False, 0)
            single(ls[a:b + 1], '\n'.join(ls), False, 0)
            single([x + '\n' for x in ls[a:b + 1]], '\n'.join(ls) + '\n', True, 3 * a)

    def wrong():
        for b in (build_text_match, build_line_match):
            raises(ValueError, lambda: b(5), 'wrong expectation')
            raises(ValueError, lambda: b(None), 'no expectation')
        raises(ValueError, lambda: expect_output(expected_text='a'), 'no output')
        raises(ValueError, lambda: expect_output(expected_text='a', expected_lines=['a'], text='a'), 'two expectations')
        raises(ValueError, lambda: expect_output(text='a'), 'no expectation')
        raises(ValueError, lambda: expect_output(text='a', lines=['a'], expected_text='a'), 'two outputs')
        eq(expect_output(expected_text='ab', text='a\x1b[31mb'), True, 'escape sequences')
        eq(expect_output(expected_lines=['ab'], text='a\x1b[31mb'), True, 'escape sequences')
        eq(expect_output(expected_text='ab', text='a\x1b[31mb', strip_ansi_escape_sequences=False), False, 'escapes kept')
    h.case('arguments', 0, wrong)

    def check(chunks, msgs):
        def f():
            c = SequentialTextChecker(list(chunks))
            i = j = 0
            for m in msgs:
                want = None
                for x in range(i, len(chunks)):
                    k = chunks[x].find(m, j if x == i else 0)
                    if k >= 0:
                        want = x, k + len(m)
                        break
                try:
                    (c.assertInStdout if r.random() < .5 else c.assertInText)(m)
                    got = True
                except AssertionError as exc:
                    got = False
                    assert m in str(exc)
                eq(got, want is not None, 'found %r' % m)
                if want:
                    i, j = want
        h.case('sequence', (tuple(chunks), tuple(msgs)), f)
    for _ in range(h.n(300)):
        chunks = [text(4) for _ in range(r.randint(0, 7))]
        whole = ''.join(chunks)
        msgs = []
        for _ in range(r.randint(1, 5)):
            a = r.randint(0, len(whole))
            msgs.append(whole[a:a + r.randint(0, 3)] if r.random() < .7 else text(2))
        check(chunks, msgs)

    def captured(t, other, cuts, mode, expected):
        def f():
            a, b = proc('one'), proc('two')
            hd = ActiveIoHandler() if mode % 2 else IoHandler()
            data, noise = t.encode(), other.encode()
            pts = sorted({0, len(data), *[c % (len(data) + 1) for c in cuts]})
            for x, y in zip(pts, pts[1:]):
                hd.append(io(data[x:y], True, a))
                if noise:
                    hd.append(io(noise[x % len(noise):x % len(noise) + 1], False, a))
                    hd.append(io(noise, True, b))
            if len(pts) < 2:
                return
            want = text_match(expected, t, False) is not None
            try:
                assertInStdout(hd, expected, 'one' if mode < 2 else a, strip_ansi_escape_sequences=False)
                got = True
            except AssertionError:
                got = False
            eq(got, want, 'stdout')
            try:
                assertInStdout(hd, expected, 'one', output_filter=lambda s: s.replace('a', ''), strip_ansi_escape_sequences=False)
                got = True
            except AssertionError:
                got = False
            eq(got, text_match(expected, t.replace('a', ''), False) is not None, 'filtered')
            err = ''.join(i.text.decode(errors='ignore') for i in hd['one'] if i.from_stderr and i.text.isascii())
            if other.isascii():
                try:
                    assertInStderr(hd, expected, 'one', strip_ansi_escape_sequences=False)
                    got = True
                except AssertionError:
                    got = False
                eq(got, text_match(expected, err, False) is not None, 'stderr')
            if isinstance(hd, ActiveIoHandler):
                eq(hd.waitFor(expected, 'one', timeout=0, stream='stdout', strip_ansi_escape_sequences=False), want, 'waitFor')
            with assertSequentialStdout(hd, 'one') as c:
                for s in [x for x in t if not (noise and not x.isascii())]:
                    if not noise:
                        c.assertInStdout(s)
        h.case('captured', (t, other, tuple(cuts), mode, show(expected)), f)
    for _ in range(h.n(200)):
        t = text(6)
        if '\r\r\n' in t or '\x1b' in t:
            continue
        a = r.randint(0, len(t))
        e = t.replace('\r\n', '\n')[a:a + 3] if r.random() < .6 else exp()
        captured(t, r.choice(['', 'zz', 'é', 'ab']), [r.randint(0, 20) for _ in range(r.randint(0, 5))], r.randint(0, 3), e)

    def filt(prefixes, patterns, ls, end):
        def f():
            out = ''.join(x + '\n' for x in ls) + end
            kw = {}
            if prefixes is not None:
                kw['filtered_prefixes'] = prefixes
            if patterns is not None:
                kw['filtered_patterns'] = patterns
            want = ''
            for x in [*(x + '\n' for x in ls), end]:
                if any(x.startswith(p) for p in (['pid', 'rc'] if prefixes is None else prefixes)):
                    continue
                if any(re.match(p, x) for p in patterns or ()):
                    continue
                want += x
            g = basic_output_filter(**kw)
            eq(g(out), want, 'filtered')
            eq(g(out), want, 'filtered again')
        h.case('filter', (prefixes and tuple(prefixes), patterns and tuple(patterns), tuple(ls), end), f)
    for _ in range(h.n(100)):
        filt(r.choice([None, [], ['a'], ['ab', 'rc', '']]) if r.random() < .9 else ['x'], r.choice([None, [], ['b'], ['.*b', 'rc']]),
             [r.choice(['a', 'ab', 'b', 'pid 3', 'rc', ' pid', 'xb', '']) for _ in range(r.randint(0, 5))], r.choice(['', 'pid', 'a', 'q']))

    def files(txt, regex):
        def f():
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, 'x.y')
                for ext, c in (('.txt', txt), ('.regex', regex)):
                    if c is not None:
                        with open(p + ext, 'wb') as o:
                            o.write(c.encode('utf-16'))
                if txt is not None:
                    eq(expected_output_from_file(p, 'utf-16'), txt.splitlines(), 'lines')
                elif regex is not None:
                    eq(expected_output_from_file(p, encoding='utf-16'), [re.compile(x) for x in regex.splitlines()], 'patterns')
                else:
                    raises(RuntimeError, lambda: expected_output_from_file(p), 'no file')
        h.case('file', (txt, regex), f)
    for x in (None, 'a\nb\n', 'é', ''):
        for y in (None, 'a.*\n[b]', ''):
            files(x, y)
