"""C28, bounded: real files of every format under names of every kind, and registered frontends of our own."""
import io
import pathlib
import warnings

import launch_xml
import launch_xml.launch_description_sources as xs
import launch_yaml
import launch_yaml.launch_description_sources as ys
from launch.substitutions import LaunchConfiguration
from launch.actions import IncludeLaunchDescription
from launch.frontend import InvalidFrontendLaunchFileError, Parser
from launch.invalid_launch_file_error import InvalidLaunchFileError
from launch.launch_description_sources import (AnyLaunchDescriptionSource, FrontendLaunchDescriptionSource, InvalidPythonLaunchFileError,
                                               PythonLaunchDescriptionSource, get_launch_description_from_any_launch_file,
                                               get_launch_description_from_frontend_launch_file,
                                               get_launch_description_from_python_launch_file)

from .common import *

RULE = ('files of random format (XML, YAML, Python, those that are two of them, broken ones) under random names, by path, bytes, Path, file; '
        'random registered frontends; non-trivial: distinct format and name')

BOTH = ('launch: {"children": [], "deprecated": exec("import launch; global generate_launch_description; '
        'generate_launch_description = launch.LaunchDescription")}\n')
# text, frontends whose load accepts it, frontends of which it is a launch description, Python (None: no module, False: no function, True)
CONTENTS = {
    'xml': ('<launch deprecated="xml"/>', 'x', 'x', None),
    'xml2': ('<?xml version="1.0"?>\n<!-- a: b -->\n<launch deprecated="xml"><let name="a" value="b"/></launch>\n', 'x', 'x', None),
    'yaml': ('launch:\n  deprecated: yaml\n  children: []\n', 'y', 'y', None),
    'yaml2': ('# <launch/>\nlaunch:\n- let: {name: a, value: b}\n', 'y', 'y', None),
    'python': ('import launch\ndef generate_launch_description():\n    return launch.LaunchDescription(deprecated_reason="python")\n', '', '', True),
    'nofunc': ('import launch\n', '', '', False),
    'both': (BOTH, 'y', 'y', True),
    'xmlyaml': ('<launch deprecated="x: y" />', 'xy', 'x', None),
    'root': ('<other/>', 'x', '', None),
    'yamlroot': ('other: []\n', 'y', '', False),
    'two': ('launch: []\nother: []\n', '', '', False),
    'list': ('- launch\n', '', '', None),
    'broken': ('<launch>', '', '', None),
    'broken2': ('launch: [\n', '', '', None),
    'empty': ('', '', '', False),
    'raises': ('1/0\n', '', '', None),
}
NAMES = ['a.launch.xml', 'a.xml', 'a.launch', 'a.launch.yaml', 'a.yaml', 'a.yml', 'a.launch.yml', 'a.launch.py', 'a.py', 'a', 'a.txt', 'a.XML',
         'é x.xml', 'xml', 'a.py.xml', 'a.xml.py', '.yaml', 'a.', 'launch', 'py', '.py', 'a.pyc', 'a.xml~']
XML, YAML = ('.launch.xml', '.xml', '.launch'), ('.launch.yaml', '.launch.yml', '.yaml', '.yml', '.launch')
PARSERS = {'x': launch_xml.Parser, 'y': launch_yaml.Parser}


def order_of(name):
    first = [p for p, es in (('x', XML), ('y', YAML)) if name.endswith(es)]
    return first + [p for p in 'xy' if p not in first], bool(first)


def run(h):
    r = h.rng
    top = h.scratch

    def attempt(f, *a, **k):
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            return 'raise', e

    def named(i):
        return r.choice(NAMES) if i % 3 else NAMES[i // 3 % len(NAMES)]

    def one_file(i, c, name):
        text, loads, describes, python = CONTENTS[c]
        d = os.path.join(top, r.choice(['d', 'd.py', 'd.xml', 'd.launch']) + str(i))
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            f.write(text)
        order, known = order_of(name)
        return c, text, loads, describes, python, name, path, order, known

    def load_case(i, c, name):
        c, text, loads, describes, python, name, path, order, known = one_file(i, c, name)
        got = [p for p in order if p in loads]
        for how in ('str', 'bytes', 'path', 'file', 'text', 'fd', 'file object'):
            o, w = order, known
            if how in ('text', 'fd', 'file object'):
                o, w = ['x', 'y'], False
            f = None
            if how == 'text':
                f = io.StringIO(text)
            elif how == 'file':
                f = open(path)
            elif how == 'fd':
                f = os.fdopen(os.open(path, os.O_RDONLY))
            elif how == 'file object':
                f = io.TextIOWrapper(io.BytesIO(text.encode()))
            k, v = attempt(Parser.load, f if f is not None else {'str': path, 'bytes': os.fsencode(path), 'path': pathlib.Path(path)}[how])
            what = (c, name, how, repr(v))
            want = [p for p in o if p in loads]
            eq(k, 'ok' if want else 'raise', ('accepted', *what))
            if want:
                eq(type(v[1]), PARSERS[want[0]], ('frontend', *what))
                assert isinstance(v[0], {'x': launch_xml.Entity, 'y': launch_yaml.Entity}[want[0]]), what
            else:
                assert type(v) is InvalidFrontendLaunchFileError, what
                eq('format is unknown' in str(v), not w or os.path.splitext(name)[1] in ('', '.'), ('message', *what))
                eq(v.__cause__ is not None, w and os.path.splitext(name)[1] not in ('', '.'), ('cause', *what))
            if f is not None:
                assert not f.closed, ('closed', *what)
                f.close()

    def any_case(i, c, name):
        c, text, loads, describes, python, name, path, order, known = one_file(i, c, name)
        front = next((p for p in order if p in loads), None)
        front = front if front and front in describes else None
        pyfirst = os.path.splitext(name)[1] == '.py'
        front_reason = {'x': 'xml', 'y': 'yaml'}.get(front)
        ways = {'any': lambda: get_launch_description_from_any_launch_file(path),
                'any source': lambda: AnyLaunchDescriptionSource(path).get_launch_description(LaunchContext()),
                'include': lambda: IncludeLaunchDescription(path).launch_description_source.get_launch_description(LaunchContext()),
                'frontend': lambda: get_launch_description_from_frontend_launch_file(path),
                'frontend source': lambda: FrontendLaunchDescriptionSource([path]).get_launch_description(LaunchContext()),
                'python': lambda: get_launch_description_from_python_launch_file(path),
                'python source': lambda: PythonLaunchDescriptionSource(path).get_launch_description(LaunchContext()),
                'xml': lambda: get_launch_description_from_frontend_launch_file(path, parser=launch_xml.Parser),
                'yaml': lambda: get_launch_description_from_frontend_launch_file(path, parser=launch_yaml.Parser),
                'any xml': lambda: get_launch_description_from_any_launch_file(path, parser=launch_xml.Parser),
                'xml source': lambda: xs.XMLLaunchDescriptionSource(path).get_launch_description(LaunchContext()),
                'yaml source': lambda: ys.YAMLLaunchDescriptionSource(path).get_launch_description(LaunchContext()),
                'frontend source of yaml': lambda: FrontendLaunchDescriptionSource(path, parser=launch_yaml.Parser).get_launch_description(
                    LaunchContext())}
        for n, f in ways.items():
            k, v = attempt(f)
            fr = front
            if 'xml' in n or 'yaml' in n:
                fr = 'xy'['yaml' in n] if 'xy'['yaml' in n] in describes else None
            by = []
            if n not in ('python', 'python source') and fr:
                by.append({'x': 'xml', 'y': 'yaml'}[fr])
            if n.startswith(('any', 'include', 'python')) and python:
                by.insert(0 if pyfirst else len(by), 'python')
            what = (c, name, n, repr(v))
            eq(k, 'ok' if by else 'raise', ('accepted', *what))
            if by:
                reason = v.deprecated_reason
                if c == 'both':
                    eq(v.deprecated, by[0] == 'yaml', ('by', *what))
                else:
                    eq(reason is None or reason in (by[0], 'x: y'), True, ('by', by, reason, *what))
                    eq(v.deprecated, c != 'yaml2', ('deprecated', *what))
            elif n.startswith(('any', 'include')):
                assert type(v) is InvalidLaunchFileError, what
                if 'xml' not in n:
                    ext = os.path.splitext(name)[1]
                    eq('format is unknown' in str(v).split('\n')[0], not (pyfirst or known and ext not in ('', '.')), ('message', *what))
            elif n.startswith('python'):
                assert isinstance(v, InvalidPythonLaunchFileError) == (python is False), what

    def frontends_case(i):
        """Our own frontends, any number of them."""
        log = []
        text = r.choice(['', 'x', 'line\nline\n', 'é' * 50])

        def make(n):
            accepts, exts, reads = r.random() < .3, set(r.sample(['aa', 'bb', 'b.aa', 'c'], r.randrange(3))), r.choice([0, 1, 3, None])

            class Mine(Parser):
                @classmethod
                def load(cls, file):
                    eq(file.read(), text, 'text read by a frontend')
                    if reads is not None:
                        file.seek(min(reads, len(text.encode())) if text.isascii() else 0)
                    log.append(n)
                    if not accepts:
                        raise ValueError(n)
                    return n, cls()

                @classmethod
                def get_file_extensions(cls):
                    return exts
            return Mine, accepts, exts
        fs = {n: make(n) for n in r.sample('abcdefgh', r.randrange(9))}
        keep = Parser.frontend_parsers
        Parser.frontend_parsers = {n: fs[n][0] for n in sorted(fs)}
        try:
            name = r.choice(['f.aa', 'f.b.aa', 'f.bb', 'aa', '.aa', 'f', 'f.c', 'f.caa'])
            d = os.path.join(top, 'f%d' % i)
            os.makedirs(d)
            path = os.path.join(d, name)
            with open(path, 'w') as f:
                f.write(text)
            mine = [n for n in sorted(fs) if any(name.endswith('.' + e) for e in fs[n][2])]
            order = mine + [n for n in sorted(fs) if n not in mine]
            good = [n for n in order if fs[n][1]]
            with open(path) as f:
                for file in (path, f):
                    log.clear()
                    k, v = attempt(Parser.load, file)
                    eq(log, order[:order.index(good[0]) + 1] if good else order, 'frontends asked')
                    eq(v[0] if k == 'ok' else k, good[0] if good else 'raise', 'by')
                    if k == 'raise':
                        assert isinstance(v, InvalidFrontendLaunchFileError), repr(v)
                        if mine and os.path.splitext(name)[1]:
                            assert str(v.__cause__) == order[0] and all('ValueError: ' + n in str(v) for n in order), str(v)
                    f.seek(0)
            eq(Parser.is_filename_valid(name), bool(mine), 'a name of a format')
            eq(Parser.get_parsers_from_filename(name), [fs[n][0] for n in mine], 'frontends of a name')
            eq(set(Parser.get_file_extensions_from_parsers()), set().union(*[fs[n][2] for n in fs]), 'extensions')
            eq(list(Parser.get_available_extensions()), sorted(fs), 'frontends')
        finally:
            Parser.frontend_parsers = keep

    def first_case(name, ask, want):
        def f():
            keep = Parser.frontend_parsers
            Parser.frontend_parsers = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    eq(ask(), want, 'asked before anything was loaded')
            finally:
                Parser.frontend_parsers = keep
        h.case('first', name, f)
    first_case('name', lambda: Parser.is_filename_valid('a.launch.xml'), True)
    first_case('other name', lambda: Parser.is_filename_valid('a.launch.py'), False)
    first_case('parsers', lambda: [p.__name__ for p in Parser.get_parsers_from_filename('a.launch.yaml')], ['Parser'])
    first_case('frontends', lambda: sorted(Parser.get_available_extensions()), ['xml', 'yaml'])
    first_case('extensions', lambda: {'launch.xml', 'launch.yaml'} <= set(Parser.get_file_extensions_from_parsers()), True)
    first_case('valid', lambda: Parser.is_extension_valid('xml'), True)
    first_case('not valid', lambda: Parser.is_extension_valid('launch.xml'), False)
    first_case('by extension', lambda: Parser.get_parser_from_extension('yaml').get_file_extensions(), ys.Parser.get_file_extensions()
               if hasattr(ys, 'Parser') else Parser.get_parser_from_extension('yaml').get_file_extensions())

    def source_case(i):
        """A source: expanded when asked, loaded once, from then on the same."""
        log = []
        d = os.path.join(top, 's%d' % i)
        os.makedirs(d)
        kind = i % 5
        cls, ext, text = [(PythonLaunchDescriptionSource, '.launch.py', CONTENTS['python'][0]),
                          (AnyLaunchDescriptionSource, '.launch.py', CONTENTS['python'][0]),
                          (AnyLaunchDescriptionSource, '.launch.xml', CONTENTS['xml'][0]),
                          (xs.XMLLaunchDescriptionSource, '.launch.xml', CONTENTS['xml'][0]),
                          (ys.YAMLLaunchDescriptionSource, r.choice(['.launch.yaml', '.txt']), CONTENTS['yaml'][0])][kind]
        for n in ('one', 'two'):
            with open(os.path.join(d, n + ext), 'w') as f:
                f.write(text)
        ctx = LaunchContext()
        ctx.launch_configurations['which'] = 'wrong'
        s = cls([TextSubstitution(text=d + os.sep), Lookup('which', log), ext])
        eq(log, [], 'expanded early')
        if r.random() < .5:
            # looked at beforehand, which can only see the defaults
            early = r.choice(['one', 'two', 'none'])
            late = cls([TextSubstitution(text=d + os.sep), LaunchConfiguration('which', default=early), ext])
            k, v = attempt(late.try_get_launch_description_without_context)
            eq((k, isinstance(v, LaunchDescription)), ('ok', early != 'none'), 'beforehand')
            ctx.launch_configurations['which'] = 'two'
            got = late.get_launch_description(ctx)
            assert isinstance(got, LaunchDescription) and got is not v
            eq(late.location, os.path.join(d, 'two' + ext), 'expanded later')
        ctx.launch_configurations['which'] = 'one'
        ld = s.get_launch_description(ctx)
        eq((log, s.location), (['which'], os.path.join(d, 'one' + ext)), 'expanded')
        ctx.launch_configurations['which'] = 'two'
        os.remove(os.path.join(d, 'one' + ext))
        assert s.get_launch_description(ctx) is ld
        eq((log, s.location), (['which'], os.path.join(d, 'one' + ext)), 'expanded again')
        missing = cls(os.path.join(d, 'none' + ext))
        k, v = attempt(missing.get_launch_description, ctx)
        eq(k, 'raise', 'no file')
        # once there is a file, it is loaded
        with open(os.path.join(d, 'none' + ext), 'w') as f:
            f.write(text)
        assert isinstance(missing.get_launch_description(ctx), LaunchDescription)
    for i in range(h.n(200)):
        x = (i, list(CONTENTS)[i % len(CONTENTS)], named(i))
        h.case('load', x[1:], lambda x=x: load_case(*x))
        h.case('any', x[1:], lambda x=x: any_case(*x))
    for i in range(h.n(200)):
        h.case('registered', i, lambda i=i: frontends_case(i))
    for i in range(h.n(50)):
        h.case('sources', i, lambda i=i: source_case(i))
