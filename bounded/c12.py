import math
import os.path
from launch.substitutions import (AllSubstitution, AndSubstitution, AnySubstitution, EnvironmentVariable, EqualsSubstitution,
                                  IfElseSubstitution, LaunchConfiguration, LocalSubstitution, NotEqualsSubstitution,
                                  NotSubstitution, OrSubstitution, PathJoinSubstitution, SubstitutionFailure)
from launch.frontend.parse_substitution import parse_substitution
from launch.utilities import normalize_to_list_of_substitutions, perform_substitutions
from .common import *

RULE = ('random nested substitution expressions over a small set of names, texts and truth spellings, evaluated as objects and '
        'as launch-file text, in contexts where every name is unset, empty or set; truth tables and comparisons exhaustively over '
        'spellings; non-trivial: distinct expressions')
TRUE, FALSE = ['true', 'True', 'TRUE', 'on', 'On', 'ON', 'yes', 'Yes', '1'], ['false', 'False', 'FALSE', 'off', 'Off', 'OFF', 'no', '0']
BAD = ['', 'x', '2', '00', '1.0', 'tru', 'true x', ' ', 'null', '[true]', '-1', 'tRue']


class Err(Exception):
    pass


def truth(t):
    if t in TRUE:
        return True
    if t in FALSE:
        return False
    raise Err


def isfloat(t):
    try:
        return float(t)
    except ValueError:
        return None


def equal(a, b):
    al, bl = a.lower(), b.lower()
    if all(x in ('true', 'false', '1', '0') for x in (al, bl)):
        return (al in ('true', '1')) == (bl in ('true', '1'))
    if isfloat(a) is not None and isfloat(b) is not None:
        return math.isclose(float(a), float(b))
    return a == b


def text(b):
    return 'true' if b else 'false'


class C:
    """A context and what it should contain."""

    def __init__(self, conf, env, glob, loc):
        self.conf, self.env, self.loc = conf, env, dict(glob, **loc)
        fresh_env(env)
        self.ctx = LaunchContext()
        self.ctx.launch_configurations.update(conf)
        self.ctx.extend_globals(glob)
        self.ctx.extend_locals(loc)


def val(e, c):
    """Documented value of an expression."""
    k = e[0]
    if k == 'text':
        return e[1]
    if k == 'cat':
        return ''.join([val(x, c) for x in e[1]])
    if k == 'conf':
        n = val(e[1], c)
        if n in c.conf:
            return c.conf[n]
        if e[2] is None:
            raise Err
        return val(e[2], c)
    if k == 'env':
        n = val(e[1], c)
        if n in c.env:
            return c.env[n]
        if e[2] is None:
            raise Err
        return val(e[2], c)
    if k == 'local':
        if e[1] not in c.loc:
            raise Err
        return c.loc[e[1]]
    if k == 'not':
        return text(not truth(val(e[1], c)))
    if k in ('and', 'or', 'any', 'all'):
        b = [truth(val(x, c)) for x in e[1]]
        return text(all(b) if k in ('and', 'all') else any(b))
    if k in ('equals', 'not-equals'):
        r = equal(val(e[1], c), val(e[2], c))
        return text(r if k == 'equals' else not r)
    if k == 'if':
        return val(e[2] if truth(val(e[1], c)) else e[3], c)
    if k == 'join':
        return os.path.join(*[val(x, c) for x in e[1]])
    raise AssertionError(k)


def build(e, r):
    """The expression as a substitution object (or text or list, where such are accepted)."""
    k = e[0]

    def arg(x):
        b = build(x, r)
        return b if isinstance(b, (list, tuple)) or r.random() < .7 else (b,) if r.random() < .5 else [b]
    if k == 'text':
        return e[1] if r.random() < .5 else TextSubstitution(text=e[1])
    if k == 'cat':
        return [build1(x, r) for x in e[1]]
    if k == 'conf':
        return LaunchConfiguration(arg(e[1]), **({} if e[2] is None else {'default': arg(e[2])}))
    if k == 'env':
        return EnvironmentVariable(arg(e[1]), **({} if e[2] is None else {'default_value': arg(e[2])}))
    if k == 'local':
        return LocalSubstitution(e[1])
    if k == 'not':
        return NotSubstitution(arg(e[1]))
    if k in ('and', 'or'):
        return (AndSubstitution if k == 'and' else OrSubstitution)(*[build(x, r) for x in e[1]])
    if k in ('any', 'all'):
        return (AnySubstitution if k == 'any' else AllSubstitution)(*[build(x, r) for x in e[1]])
    if k in ('equals', 'not-equals'):
        return (EqualsSubstitution if k == 'equals' else NotEqualsSubstitution)(build(e[1], r), build(e[2], r))
    if k == 'if':
        return IfElseSubstitution(build(e[1], r), build(e[2], r), build(e[3], r))
    if k == 'join':
        return PathJoinSubstitution([build1(x, r) for x in e[1]])
    raise AssertionError(k)


def build1(x, r):
    b = build(x, r)
    while isinstance(b, (list, tuple)):
        b = PathJoinSubstitution([b[0]]) if len(b) == 1 else AsOne(b)
    return b


class AsOne(launch.Substitution):
    """Several parts as one substitution."""

    def __init__(self, parts):
        super().__init__()
        self.parts = parts

    def perform(self, context):
        return perform_substitutions(context, normalize_to_list_of_substitutions(self.parts))

    def describe(self):
        return 'AsOne'


def as_text(e):
    """The expression in launch-file syntax, or None."""
    k = e[0]
    if k == 'text':
        t = e[1]
        return t if t and all(x.isalnum() or x in '._/-' for x in t) else None
    if k == 'cat':
        ps = [as_text(x) for x in e[1]]
        return None if None in ps or not ps else ''.join(ps)
    if k == 'local':
        return None
    args = {'conf': lambda: [e[1]] + ([] if e[2] is None else [e[2]]), 'env': lambda: [e[1]] + ([] if e[2] is None else [e[2]]),
            'not': lambda: [e[1]], 'if': lambda: [e[1], e[2], e[3]], 'equals': lambda: [e[1], e[2]],
            'not-equals': lambda: [e[1], e[2]]}.get(k, lambda: list(e[1]))()
    ps = [as_text(x) for x in args]
    if None in ps or k == 'join':
        return None
    return '$(%s)' % ' '.join([{'conf': 'var'}.get(k, k)] + ps)


def run(h):
    r = h.rng
    names = ['a', 'b', 'PYVC_A', 'PYVC_B']
    texts = ['', 'x', 'xy', 'true', 'False', '1', '0', 'on', 'OFF', '1.0', '1.00', '/abs', 'a/b', 'a b', 'é', 'a', 'PYVC_A', 'b/']

    def gen(d):
        k = r.choice(['text', 'text', 'cat', 'conf', 'env', 'local', 'not', 'and', 'or', 'any', 'all', 'equals', 'not-equals', 'if',
                      'join']) if d else 'text'
        g = lambda: gen(d - 1)   # noqa: E731
        b = lambda: r.choice([('text', r.choice(TRUE + FALSE)), ('text', r.choice(TRUE + FALSE)), gen(d - 1),   # noqa: E731
                              ('text', r.choice(BAD))])
        if k == 'text':
            return (k, r.choice(texts))
        if k == 'cat':
            return (k, [g() for _ in range(r.randint(1, 3))])
        if k in ('conf', 'env'):
            return (k, ('text', r.choice(names)) if r.random() < .7 else g(), None if r.random() < .5 else g())
        if k == 'local':
            return (k, r.choice(['loc', 'glob', 'both', 'none']))
        if k == 'not':
            return (k, b())
        if k in ('and', 'or'):
            return (k, [b(), b()])
        if k in ('any', 'all'):
            return (k, [b() for _ in range(r.randint(0, 4))])
        if k == 'if':
            return (k, b(), ('text', 'then') if r.random() < .3 else g(), ('text', 'otherwise'))
        if k == 'join':
            return (k, [g() for _ in range(r.randint(1, 4))])
        return (k, g(), g())

    def context():
        pick = lambda ns: {n: r.choice(texts) for n in ns if r.random() < .6}   # noqa: E731
        return C(pick(names), pick(['PYVC_A', 'PYVC_B']), {'glob': 'g', 'both': 'G'}, {'loc': 'l', 'both': 'L'})

    def check(c, e, fn):
        try:
            want = val(e, c)
        except Err:
            raises((SubstitutionFailure, AttributeError), fn, 'no documented value')
            return
        before = dict(c.ctx.launch_configurations), full_env()
        eq(fn(), want, 'value')
        eq((dict(c.ctx.launch_configurations), full_env()), before, 'unchanged')

    def one(e):
        def f():
            c = context()
            o = build(e, r)
            check(c, e, lambda: perform_substitutions(c.ctx, normalize_to_list_of_substitutions(o)))
            c = context()      # the same objects again, elsewhere
            check(c, e, lambda: perform_substitutions(c.ctx, normalize_to_list_of_substitutions(o)))
            t = as_text(e)
            if t is not None:
                check(c, e, lambda: perform_substitutions(c.ctx, parse_substitution(t)))
        h.case('expression', e, f)
    sp = TRUE + FALSE + BAD
    T = lambda t: ('text', t)   # noqa: E731
    for x in sp:
        one(('not', T(x)))
        one(('if', T(x), T('p'), T('q')))
        one(('if', T(x), T(''), T('q')))
        one(('if', T(x), T('p'), T('')))
        for y in sp if h.n(1) > 1 else [r.choice(TRUE), r.choice(FALSE), r.choice(BAD)]:
            one((r.choice(['and', 'all']), [T(x), T(y)]))
            one((r.choice(['or', 'any']), [T(x), T(y)]))
    cmp = ['', 'x', 'X', 'true', 'TRUE', '1', '1.0', '0', '0.0', 'false', '1.0000000000001', '1e0', ' 1 ', 'inf', '1.1', 'true ',
           '10', '010', 'yes', 'on', '1_0', '1e-12', '-1e-10', '0', '1e300', '1e301', '1e9', '1000000000.5', '1000000002', '1.0000000005']
    for x in cmp:
        for y in cmp:
            one((r.choice(['equals', 'not-equals']), T(x), T(y)))
    for k in ('any', 'all'):
        for n in range(4):
            for m in range(2 ** n):
                one((k, [T(r.choice(TRUE if m >> i & 1 else FALSE)) for i in range(n)]))
    for a, ta in ((None, ''), (True, 'true'), (False, 'false'), (3, '3'), (1.5, '1.5')):
        for b in ('', 'true', '0', '1', '3.0', '1.5', 'None', 'x'):
            def f(a=a, ta=ta, b=b):
                eq(EqualsSubstitution(a, b).perform(LaunchContext()), text(equal(ta, b)), 'equals')
                eq(EqualsSubstitution([TextSubstitution(text=b)], a).perform(LaunchContext()), text(equal(ta, b)), 'equals')
                eq(NotEqualsSubstitution(a, b).perform(LaunchContext()), text(not equal(ta, b)), 'not equals')
            h.case('values', (a, b), f)
    for v, w in (('', ''), (5, '5'), (-1.5, '-1.5'), (True, 'True'), (['a', 7, TextSubstitution(text='x')], 'a7x'), ((), '')):
        h.case('default', v, lambda v=v, w=w: eq(LaunchConfiguration('unset', default=v).perform(LaunchContext()), w, 'default'))
    for _ in range(h.n(900)):
        one(gen(r.randint(1, 3)))
    outside(h)


def outside(h):
    """Substitutions for what lies outside of the launch file: names, commands, files, executables, expressions."""
    import stat
    import sys
    import tempfile
    from launch.substitutions import (AnonName, Command, FileContent, FindExecutable, LaunchLogDir, PythonExpression, ThisLaunchFile,
                                      ThisLaunchFileDir)
    r = h.rng

    def parts(t):
        """The text as one of the forms substitutions are given in."""
        i = r.randint(0, len(t))
        return r.choice([t, TextSubstitution(text=t), [t], [t[:i], TextSubstitution(text=t[i:])]])

    def anon(texts, preset):
        fresh_env({})
        c = LaunchContext()
        c.launch_configurations.update(preset)
        seen = {}
        for t in texts:
            s = AnonName(parts(t)) if r.random() < .5 or not t.isalnum() else parse_substitution('$(anon %s)' % t)[0]
            v = s.perform(c)
            eq(seen.setdefault(t, v), v, 'the name of %r' % t)
            check(' ' in t or v.replace('_', '').isalnum(), 'legal name %r' % v)
        eq(len(set(seen.values())), len(seen), 'different names')
        eq({k: v for k, v in c.launch_configurations.items() if not k.startswith('anon')}, preset, 'configurations')

    def check(ok, what):
        eq(bool(ok), True, what)
    names = ['', 'a', 'b', 'ab', 'A', 'a_b', 'name', 'on', 'node1', 'a-b', 'a.b', 'a:b', 'a b', 'a__b']
    for _ in range(h.n(60)):
        ts = [r.choice(names) for _ in range(r.randint(1, 6))]
        h.case('anonymous', ts, lambda ts=ts: anon(ts, {n: 'set' for n in names if n and r.random() < .4 and not n.startswith('anon')}))

    d = tempfile.mkdtemp(prefix='pyvc')
    try:
        script = os.path.join(d, 'script.py')
        with open(script, 'w') as f:
            f.write('import sys\nsys.stdout.write(sys.argv[1])\nsys.stdout.flush()\nsys.stderr.write(sys.argv[2])\nsys.exit(int(sys.argv[3]))\n')

        def command(mode, out, err, rc, missing):
            cmd = ['%s %s ' % ('/nonexistent/pyvc' if missing else sys.executable, script), TextSubstitution(text="'%s' '%s' " % (out, err)), str(rc)]
            s = Command(cmd, **({} if mode is None else {'on_stderr': parts(mode)}))
            fails = missing or rc != 0 or mode not in (None, 'fail', 'ignore', 'warn', 'capture') or mode in (None, 'fail') and err
            if fails:
                raises((SubstitutionFailure,), lambda: s.perform(LaunchContext()), 'fails')
            else:
                eq(s.perform(LaunchContext()), out + err if mode == 'capture' else out, 'output')
        for mode in (None, 'fail', 'ignore', 'warn', 'capture', 'other', ''):
            for out in ('', 'out', ' two\nlines\n'):
                for err in ('', ' ', 'err\n'):
                    for rc in (0, 1):
                        if h.n(1) > 1 or r.random() < .3:
                            h.case('command', (mode, out, err, rc), lambda a=(mode, out, err, rc): command(*a, False))
            h.case('command', (mode, 'missing'), lambda a=(mode, 'out', '', 0): command(*a, True))

        def content(t, there):
            p = os.path.join(d, 'file')
            if there:
                with open(p, 'w') as f:
                    f.write(t)
            s = FileContent(parts(p)) if r.random() < .5 else parse_substitution('$(file-content %s)' % p)[0]
            if there:
                eq(s.perform(LaunchContext()), t, 'content')
                os.unlink(p)
            else:
                raises((SubstitutionFailure,), lambda: s.perform(LaunchContext()), 'no file')
        for t in ('', 'x', '\n', ' a\nb \n', 'x' * 100000, 'line\n' * 3, '\n\ntext\n\n', 'é'):
            h.case('file', t[:20], lambda t=t: content(t, True))
        h.case('file', None, lambda: content('', False))

        def undecodable():
            p = os.path.join(d, 'bytes')
            with open(p, 'wb') as f:
                f.write(b'a\xffb\xc3\x28')
            raises((UnicodeDecodeError, SubstitutionFailure), lambda: FileContent(p).perform(LaunchContext()), 'not text')
        h.case('file', b'a\xffb', undecodable)

        def executable(name, there):
            fresh_env({'PATH': os.pathsep.join([os.path.join(d, 'one'), os.path.join(d, 'two')])})
            s = FindExecutable(name=parts(name)) if r.random() < .5 else parse_substitution('$(find-exec %s)' % name)[0]
            if there is None:
                raises((SubstitutionFailure,), lambda: s.perform(LaunchContext()), 'not found')
            else:
                eq(s.perform(LaunchContext()), os.path.join(d, there, name), 'executable')
        for sub, n in (('one', 'first'), ('two', 'first'), ('two', 'second')):
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            with open(os.path.join(d, sub, n), 'w') as f:
                f.write('#!/bin/sh\n')
            os.chmod(f.name, stat.S_IRWXU)
        for n, w in (('first', 'one'), ('second', 'two'), ('third', None)):
            h.case('executable', n, lambda n=n, w=w: executable(n, w))
    finally:
        import shutil
        shutil.rmtree(d)

    import re as re_module

    def expression(t, mods, want):
        s = PythonExpression(parts(t), **({} if mods is None else {'python_modules': mods}))
        eq(s.perform(LaunchContext()), want, 'value')
    for t, mods, want in [('1 + 2', None, '3'), ('sqrt(16)', None, '4.0'), ('math.sqrt(16)', None, '4.0'), ('"a" + "b"', None, 'ab'),
                          ('True', None, 'True'), ('None', None, 'None'), ('[1, 2]', [], '[1, 2]'), ('re.sub("a", "b", "aa")', ['re'], 'bb'),
                          ('re.sub("a", "b", "a") + str(math.floor(2.5))', ['re', 'math'], 'b2'), ('floor(2.5)', ['re', 'math'], '2'),
                          ('" x "', None, ' x '), ('pi', ['math', 're'], str(math.pi)), ('e', None, str(math.e))]:
        h.case('expression value', (t, mods), lambda a=(t, mods, want): expression(*a))
    for t, mods in (('1 / 0', None), ('nosuch', None), ('math.pi', []), ('pi', ['re']), ('re.I', None)):
        h.case('expression value', (t, mods), lambda t=t, mods=mods: raises(
            (Exception,), lambda: PythonExpression(t, **({} if mods is None else {'python_modules': mods})).perform(LaunchContext()), 'error'))
    for t, want in (("$(eval '1 + 2')", '3'), ("$(eval 're.I == re.IGNORECASE' 're')", 'True'), ("$(eval 'pi == math.pi' ' re , math ')", 'True')):
        h.case('expression text', t, lambda t=t, want=want: eq(perform_substitutions(LaunchContext(), parse_substitution(t)), want, 'value'))

    def this(f, dd):
        c = LaunchContext()
        g = dict([] if f is None else [('current_launch_file_path', f)], **({} if dd is None else {'current_launch_file_directory': dd}))
        (c.extend_globals if r.random() < .5 else c.extend_locals)(g)
        for cls, text_, w in ((ThisLaunchFile, '$(filename)', f), (ThisLaunchFileDir, '$(dirname)', dd)):
            for s in (cls(), parse_substitution(text_)[0]):
                if w is None:
                    raises((SubstitutionFailure,), lambda: s.perform(c), 'outside of a launch file')
                else:
                    eq(s.perform(c), w, 'launch file')
    for f in (None, '/a/b.launch.py', 'x.xml'):
        for dd in (None, '/a', ''):
            h.case('this launch file', (f, dd), lambda f=f, dd=dd: this(f, dd))

    import launch.logging
    for t in ('$(log_dir)', '$(launch_log_dir)'):
        def f(t=t):
            for s in (LaunchLogDir(), parse_substitution(t)[0]):
                eq(s.perform(LaunchContext()), launch.logging.launch_config.log_dir, 'log directory')
        h.case('log directory', t, f)
    least = {'anon': (1, 1), 'not': (1, 1), 'and': (2, 2), 'or': (2, 2), 'command': (1, 2), 'env': (1, 2), 'equals': (2, 2), 'not-equals': (2, 2),
             'file-content': (1, 1), 'find-exec': (1, 1), 'if': (2, 3), 'var': (1, 2), 'eval': (1, 2), 'filename': (0, 0), 'dirname': (0, 0),
             'log_dir': (0, 0), 'launch_log_dir': (0, 0)}
    for n, (lo, hi) in least.items():
        for m in range(5):
            def f(n=n, m=m, ok=lo <= m <= hi):
                t = '$(%s)' % ' '.join([n] + ['x'] * m)
                if ok:
                    parse_substitution(t)
                else:
                    raises((Exception,), lambda: parse_substitution(t), 'number of arguments')
            h.case('arguments', (n, m), f)
    for t, want in [(r'a\$b', 'a$b'), (r'\\', '\\'), (r'a\"b', 'a"b'), ("it's", "it's"), ('$x', '$x'), ('a (b)', 'a (b)'), ('', ''), (' ', ' '),
                    (r"$(var 'a\'b' 'd\'e')", "d'e"), ('$(var nope "x y")', 'x y'), ("$(var nope 'x y')z", 'x yz'), ("$(var nope '')", ''),
                    ('$(var nope "$(var nope p) q")', 'p q'), ('p$(var nope q)r$(var nope s)', 'pqrs'), ('$(var nope a$(var nope b)c)', 'abc'),
                    ("$(if true 'yes it is' no)", 'yes it is'), ('$(equals $(var nope x) x)', 'true')]:
        h.case('text', t, lambda t=t, want=want: eq(perform_substitutions(LaunchContext(), parse_substitution(t)), want, 'value'))
    from launch.frontend.parse_substitution import replace_escaped_characters

    def unescaped(t):
        out, i = '', 0
        while i < len(t):
            if t[i] == '\\' and i + 1 < len(t) and t[i + 1] != '\n':
                i += 1
            out, i = out + t[i], i + 1
        return out
    import itertools
    alphabet = '\\a $"\'\t\n('
    for n in range(5 if h.n(1) > 1 else 4):
        for q in itertools.product(alphabet, repeat=n):
            t = ''.join(q)
            h.case('escapes', t, lambda t=t: eq(replace_escaped_characters(t), unescaped(t), 'text'))
    for t in ('a\\ b', 'a\\\tb', 'two\\\\ words', '\\a\\b', 'x\\(y\\)'):
        h.case('text', t, lambda t=t: eq(perform_substitutions(LaunchContext(), parse_substitution(t)), unescaped(t), 'value'))
