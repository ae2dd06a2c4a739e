"""C28: launch files are loaded by the frontend of their format, else by any that accepts them."""
import os
import warnings

from .common import *
from .execlocal import tm
import launch.frontend.parser as FP
import launch.launch_description_sources.any_launch_file_utilities as AF
import launch.launch_description_sources.frontend_launch_file_utilities as FF
import launch.launch_description_sources.python_launch_file_utilities as PF
import launch_xml
import launch_xml.parser
import launch_yaml
import launch_yaml.parser
from launch.frontend import InvalidFrontendLaunchFileError, Parser
from launch.invalid_launch_file_error import InvalidLaunchFileError
from launch.launch_description_source import LaunchDescriptionSource
from launch.launch_description_sources import (AnyLaunchDescriptionSource, FrontendLaunchDescriptionSource,
                                               InvalidPythonLaunchFileError, PythonLaunchDescriptionSource)

P = 'launch.frontend.parser:Parser.'
L = 'launch.launch_description_sources.'


class File(Fake):
    """A text file object: its position and whether it is open."""

    def __init__(self, name=None):
        self.at, self.open, self.seekable_ = 0, True, True
        if name is not None:
            self.name = name

    def __getattr__(self, n):
        if n == 'name':
            raise AttributeError(n)
        return Fake.__getattr__(self, n)

    def seek(self, pos, whence=0):
        prove('not used once closed', self.open)
        if whence:
            raise Unsupported('seek')
        self.at = pos
        return pos

    def tell(self):
        return self.at

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class BadFile(Exception):
    pass


class Frontend(Fake):
    """A registered frontend: accepts a file or not, claims a name or not."""

    def __init__(self, i, order):
        self.i, self.order = i, order
        self.accepts, self.claims = fresh_bool('accepts'), fresh_bool('claims')
        self.result, self.error = object(), BadFile(i)

    def may_parse(self, filename):
        self.names.append(filename)
        return self.claims

    def load(self, f):
        prove('the frontends read the file from its start', f is self.file and f.open and f.at == 0)
        self.order.append(self)
        f.at = 5
        if E().branch(self.accepts.term):
            return self.result
        raise self.error


def registered(fs):
    patch(Parser, 'frontend_parsers', {'frontend%d' % f.i: f for f in fs})


@unit('C28', [P + 'load', P + 'get_parsers_from_filename', P + 'is_filename_valid'],
      assumes=('up to four registered frontends; a frontend reads the file or raises', 'open(path): a file object of that name, at its start'),
      budget=200)
def load():
    order, opened, names = [], [], []
    fs = [Frontend(i, order) for i in range(choose(4))]
    how = choose(6)
    path = ['/x/file.launch.ext', b'/x/file.launch.ext', __import__('pathlib').PurePosixPath('/x/file.launch.ext')][how % 3] if how < 3 else None
    f = File([None, None, None, '/x/file.launch.ext', None, 7][how] if path is None else os.fspath(path))
    for x in fs:
        x.file, x.names = f, names
    registered(fs)

    def opener(p, mode='r', **k):
        if k or mode not in ('r', 'rt'):
            raise Unsupported('arguments of open')
        prove('the file of the path', p == path or p == os.fspath(path))
        opened.append(f)
        return f
    patch(FP, 'open', opener)
    k, r = outcome(do, Parser.load, f if path is None else path)
    named = how < 4
    prove('what the frontends are asked about is the name of the file', all(
        type(n) is str and n in (('/x/file.launch.ext', 'file.launch.ext') if named else ('',)) for n in names), repr(names))
    prove('a file that was opened is closed, one that was given is not', f.open == (path is not None and not opened or path is None))
    claim = [E().entailed(x.claims.term)[0] == 'proved' for x in fs]
    if k == 'raise':
        prove('every frontend was tried, those of the name first, by name', order == [x for i in (True, False) for x, c in zip(fs, claim) if c is i])
        prove('an error only if none accepts the file', And(*[Not(x.accepts.term) for x in fs]))
        prove('an invalid launch file', isinstance(r, InvalidFrontendLaunchFileError), repr(r))
        known = any(claim) and named
        prove('the errors, if the format is known', all(str(x.i) in str(r) for x in fs) if known else
              'format is unknown' in str(r), str(r))
        prove('the first error is the cause', not known or r.__cause__ is order[0].error)
        return
    want = []
    for i in (True, False):
        for x, c in zip(fs, claim):
            if c is i:
                want.append(x)
    prove('one that accepts it', bool(order) and r is order[-1].result and order[-1].accepts.term)
    prove('in order, those of the name first, by name', order == want[:len(order)])


@unit('C28', [P + 'may_parse', P + 'get_parsers_from_filename', P + 'is_filename_valid', P + 'get_file_extensions', P + 'get_available_extensions',
              P + 'get_file_extensions_from_parsers', 'launch_xml.parser:Parser.get_file_extensions', 'launch_yaml.parser:Parser.get_file_extensions'])
def file_names():
    """Which frontend a file name belongs to, for every name."""
    n = fresh_str('name')
    XML, YAML = ['.launch', '.xml'], ['.launch', '.yaml', '.yml']
    ends = lambda es: Or(*[z3.SuffixOf(StringVal(e), n.term) for e in es])   # noqa: E731
    X, Y = launch_xml.Parser, launch_yaml.Parser
    for c, es in ((X, XML), (Y, YAML)):
        prove('a name of the format', tm(do(c.may_parse, n)) == ends(es))
    prove('no name belongs to no format', Not(tm(do(Parser.may_parse, n))))
    patch(Parser, 'frontend_parsers', {'xml': X, 'yaml': Y})
    prove('a name of any format', tm(do(Parser.is_filename_valid, n)) == ends(XML + YAML))
    r = [*rt.to_vlist(do(Parser.get_parsers_from_filename, n)).items]
    prove('the frontends of the name, by name', And(ends(XML) if X in r else Not(ends(XML)), ends(YAML) if Y in r else Not(ends(YAML)),
                                                      z3.BoolVal(r == [x for x in (X, Y) if x in r])))
    prove('the frontends', sorted(rt.iter_list(do(Parser.get_available_extensions)) if hasattr(rt, 'iter_list')
                                  else list(do(Parser.get_available_extensions))) == ['xml', 'yaml'])


@unit('C28', [P + 'is_extension_valid', P + 'get_parser_from_extension', P + 'load_parser_implementations'])
def by_name():
    """The older way of asking for a frontend, by the name it is registered under."""
    X, Y = launch_xml.Parser, launch_yaml.Parser
    both = choose(2)
    patch(Parser, 'frontend_parsers', {'xml': X, 'yaml': Y} if both else {'yaml': Y})
    n = fresh_str('extension')
    warnings.simplefilter('ignore')
    names = ['xml', 'yaml'] if both else ['yaml']
    known = Or(*[n.term == StringVal(x) for x in names])
    prove('a name is valid if a frontend is registered under it', tm(do(Parser.is_extension_valid, n)) == known)
    k, r = outcome(do, Parser.get_parser_from_extension, n)
    if k == 'ok':
        prove('the frontend of the name', n.term == StringVal('xml' if r is X else 'yaml') if r in (X, Y) else False)
        prove('one that is registered', known)
    else:
        prove('an unknown name is an error', And(Not(known), z3.BoolVal(type(r) is RuntimeError)))


class Point(Fake):
    def __init__(self, name, log):
        self.name, self.log, self.fails = name, log, bool(choose(2))

    def load(self):
        self.log.append(self.name)
        if self.fails:
            raise ImportError(self.name)
        return 'loaded ' + self.name


class Points(Fake):
    def __init__(self, ps, group):
        self.ps, self.group = ps, group

    def select(self, *, group):
        return self.ps if group == self.group else ()


@unit('C28', [P + 'load_parser_implementations', P + 'load_launch_extensions'], assumes=('importlib.metadata: the installed entry points; up to three',))
def extensions():
    what = choose(2)
    log, warned = [], []
    ps = [Point(n, log) for n in (('b', 'a', 'c'), ('a', 'B', 'A'), ('a-b', 'a_b', 'aB'))[choose(3)][:choose(4)]]
    pts = Points(ps, ('launch.frontend.parser', 'launch.frontend.launch_extension')[what])
    patch(FP, 'importlib_metadata', Facade(FP.importlib_metadata, entry_points=lambda: pts))
    patch(FP, 'warnings', Facade(warnings, warn=lambda m, *a, **k: warned.append(m)))
    patch(Parser, 'frontend_parsers', None)
    patch(Parser, 'extensions_loaded', False)
    f = (Parser.load_parser_implementations, Parser.load_launch_extensions)[what]
    for _ in range(2):
        do(f)
        prove('each is loaded once', log == [p.name for p in ps])
        prove('a warning for each that cannot be loaded', len(warned) == sum(p.fails for p in ps) and all(
            p.name in m for p, m in zip([p for p in ps if p.fails], warned)))
        if what == 0:
            got = [(x, Parser.frontend_parsers[x]) for x in Parser.frontend_parsers]
            prove('the frontends by name', got == sorted((p.name, 'loaded ' + p.name) for p in ps if not p.fails), repr(got))


@unit('C28', [L + 'frontend_launch_file_utilities:get_launch_description_from_frontend_launch_file',
              'launch_xml.parser:Parser.load', 'launch_yaml.parser:Parser.load'],
      assumes=('ElementTree.parse(file): the tree of an XML file; yaml.safe_load(file): the value of a YAML file; or an error',))
def formats():
    f = File('x.launch')
    opened = []

    class Root(Fake):
        pass
    root = Root()
    path = bool(choose(2))
    bad = bool(choose(2))
    xml = bool(choose(2))

    def opener(p, mode='r', **k):
        if p is f:
            raise TypeError('expected str, bytes or os.PathLike object')
        prove('the file of the path', p == '/x/y')
        opened.append(f)
        return f

    def read(g):
        prove('the file', g == '/x/y' if path and xml and not opened else g is f and f.open)
        if bad:
            raise BadFile()
        return tree
    if xml:
        class Tree(Fake):
            def getroot(self):
                return root
        tree = Tree()
        patch(launch_xml.parser, 'ET', Facade(launch_xml.parser.ET, parse=read))
        use_contract(launch_xml.Entity, lambda x, **k: ('entity', x))
    else:
        tree = [{'launch': root}, {}, {'launch': root, 'other': 1}, None, ['launch']][choose(5)]
        patch(launch_yaml.parser, 'yaml', Facade(launch_yaml.parser.yaml, safe_load=read))
        patch(launch_yaml.parser, 'open', opener)
        use_contract(launch_yaml.Entity, lambda x, name, **k: ('entity', x, name))
    cls = launch_xml.Parser if xml else launch_yaml.Parser
    k, r = outcome(do, cls.load, '/x/y' if path else f)
    prove('what was opened is closed, what was given is not', f.open is not bool(opened))
    fails = bad or not xml and tree != {'launch': root}
    prove('an error exactly if it is not a file of the format with one root', (k == 'raise') == fails, repr(r))
    if not fails:
        prove('its root and a parser of the format', type(r[1]) is cls and (r[0] == (('entity', root) if xml else ('entity', root, 'launch'))))


@unit('C28', [L + 'frontend_launch_file_utilities:get_launch_description_from_frontend_launch_file'])
def frontend_file():
    root, result = object(), object()
    fails = choose(3)

    class Instance(Fake):
        def parse_description(self, e):
            prove('the root that was loaded', e is root)
            if fails == 2:
                raise BadFile()
            return result

    class Loader(Fake):
        def load(self, p):
            prove('the file of the path', p == '/a/b')
            if fails == 1:
                raise BadFile()
            return root, Instance()
    if choose(2):
        k, r = outcome(do, FF.get_launch_description_from_frontend_launch_file, '/a/b', parser=Loader())
    else:
        use_contract(Parser.load.__func__, lambda cls, p: Loader().load(p))
        k, r = outcome(do, FF.get_launch_description_from_frontend_launch_file, '/a/b')
    prove('the description, or the error', (k == 'raise' and isinstance(r, BadFile)) if fails else r is result, repr(r))


@unit('C28', [L + 'any_launch_file_utilities:get_launch_description_from_any_launch_file', 'launch.invalid_launch_file_error:InvalidLaunchFileError.__init__'],
      assumes=('loaders: a description or an error (units frontend_file, python_file)',))
def any_file():
    py, fr = bool(choose(2)), bool(choose(2))       # which loaders accept it
    pyext, known = bool(choose(2)), bool(choose(2))
    path = '/a.py/b.launch.py' if pyext else ['/a.py/b', '/a.py/b.launch.xml', '/a/b.py.xml'][choose(3)]
    calls = []
    results = {'python': object(), 'frontend': object()}
    errors = {'python': SyntaxError('not python'), 'frontend': BadFile('not markup')}
    special = object()
    own = bool(choose(2))

    def loader(n, ok):
        def load(p, **k):
            prove('the file of the path', p == path)
            if own and n == 'frontend':
                prove('by the frontend asked for', k.get('parser') is special)
            calls.append(n)
            if not ok:
                raise errors[n]
            return results[n]
        return load
    use_contract(PF.get_launch_description_from_python_launch_file, loader('python', py))
    use_contract(FF.get_launch_description_from_frontend_launch_file, loader('frontend', fr))
    use_contract(Parser.is_filename_valid.__func__, lambda cls, n: known and not pyext)
    k, r = outcome(do, AF.get_launch_description_from_any_launch_file, path, **dict(parser=special) if own else {})
    order = ['python', 'frontend'] if pyext else ['frontend', 'python']
    ok = {'python': py, 'frontend': fr}
    good = [n for n in order if ok[n]]
    prove('in order, Python first for its extension, last for others', calls == (order[:order.index(good[0]) + 1] if good else order))
    if good:
        prove('what the first that accepts it gives', k == 'ok' and r is results[good[0]], repr(r))
    else:
        prove('an invalid launch file', k == 'raise' and isinstance(r, InvalidLaunchFileError), repr(r))
        if pyext or known and path.endswith('.xml'):
            prove('the errors in order', r.__cause__ is errors[order[0]] and 'not python' in str(r) and 'not markup' in str(r), str(r))
        else:
            prove('the format is not known', 'format is unknown' in str(r), str(r))


@unit('C28', [L + 'python_launch_file_utilities:get_launch_description_from_python_launch_file',
              L + 'python_launch_file_utilities:load_python_launch_file_as_module'],
      assumes=('SourceFileLoader(name, path), exec_module: runs the file in the module, or an error',))
def python_file():
    how = choose(4)
    result, ran = object(), []

    class Module(Fake):
        def __getattr__(self, n):
            raise AttributeError(n)

    class Loader(Fake):
        def __init__(self, name, path):
            prove('the file of the path', path == '/a/b.launch.py')
            self.name = name

        def exec_module(self, m):
            prove('run once', not ran and m is mods[-1])
            ran.append(m)
            if how == 1:
                raise SyntaxError('bad')
            if how != 2:
                def generate():
                    ran.append('generate')
                    if how == 3:
                        raise BadFile()
                    return result
                m.generate_launch_description = generate
    mods = []

    def module(spec):
        mods.append(Module())
        return mods[-1]
    patch(PF, 'SourceFileLoader', Loader)
    patch(PF, 'spec_from_loader', lambda n, ld: Fake())
    patch(PF, 'module_from_spec', module)
    k, r = outcome(do, PF.get_launch_description_from_python_launch_file, '/a/b.launch.py')
    if how == 0:
        prove('what the function of the file gives', k == 'ok' and r is result and ran == [mods[-1], 'generate'], repr(r))
    else:
        prove('the error of the file', k == 'raise' and type(r) is [None, SyntaxError, InvalidPythonLaunchFileError, BadFile][how], repr(r))
        prove('each is run once at most', len(ran) == (2 if how == 3 else 1))


@unit('C28', [L + 'any_launch_description_source:AnyLaunchDescriptionSource.' + m for m in ('__init__', '_get_launch_description')]
      + [L + 'python_launch_description_source:PythonLaunchDescriptionSource.' + m for m in ('__init__', '_get_launch_description')]
      + [L + 'frontend_launch_description_source:FrontendLaunchDescriptionSource.' + m for m in ('__init__', '_get_launch_description')]
      + ['launch_xml.launch_description_sources.xml_launch_description_source:XMLLaunchDescriptionSource.__init__',
         'launch_yaml.launch_description_sources.yaml_launch_description_source:YAMLLaunchDescriptionSource.__init__',
         'launch.launch_description_source:LaunchDescriptionSource.get_launch_description',
         'launch.launch_description_source:LaunchDescriptionSource.try_get_launch_description_without_context',
         'launch.launch_description_source:LaunchDescriptionSource._get_launch_description'],
      assumes=NORM_ASSUMES + ('loading functions (other units)',))
def sources():
    ctx = new_context()
    ctx.launch_configurations.update(fresh_dict('configs'))
    expand_contracts(ctx)
    loc = fresh_obj('location', SubsK)
    looking, BLANK = [], uf('expand without context', IntS, StrS)

    def perf(c, x):
        if looking and c is not ctx:        # beforehand, as far as that is possible
            if looking[0]:
                raise RuntimeError('cannot be expanded')
            return StrK.wrap(BLANK(x.term))
        prove('expanded in the context of the launch', c is ctx)
        return StrK.wrap(expand(x, ctx.launch_configurations))
    use_contract(LUT_PERF, perf)
    import launch_xml.launch_description_sources as XS
    import launch_yaml.launch_description_sources as YS
    special = object()
    which = choose(6)
    if which == 5:
        d = object()
        s = new(LaunchDescriptionSource, *[d] if choose(2) else [], location=loc)
        k, r = outcome(do, s.get_launch_description, ctx)
        prove('a description that was given, else none', r is d if k == 'ok' else isinstance(r, RuntimeError))
        return
    make, want, parser = [(lambda: new(AnyLaunchDescriptionSource, loc), 'any', None),
                          (lambda: new(PythonLaunchDescriptionSource, loc), 'python', None),
                          (lambda: new(FrontendLaunchDescriptionSource, loc, parser=special), 'frontend', special),
                          (lambda: new(XS.XMLLaunchDescriptionSource, loc), 'frontend', launch_xml.Parser),
                          (lambda: new(YS.YAMLLaunchDescriptionSource, loc), 'frontend', launch_yaml.Parser)][which]
    calls, result = [], object()

    def loader(n):
        def load(p, **k):
            calls.append((n, p, k))
            return result
        return load
    use_contract(AF.get_launch_description_from_any_launch_file, loader('any'))
    use_contract(PF.get_launch_description_from_python_launch_file, loader('python'))
    use_contract(FF.get_launch_description_from_frontend_launch_file, loader('frontend'))
    s = make()
    d = snap(ctx.launch_configurations)
    prove('nothing is loaded before it is asked for', not calls)
    if choose(2):
        looking.append(bool(choose(2)))
        r = do(s.try_get_launch_description_without_context)
        prove('looking beforehand', r is (None if looking[0] else result))
        del calls[:], looking[:]
    for _ in range(2):
        r = do(s.get_launch_description, ctx)
        prove('the description of the file, loaded once, by the right frontend', r is result and len(calls) == 1 and calls[0][0] == want
              and calls[0][2].get('parser') is parser, repr(calls))
        prove('the file of the expanded path', StrK.unwrap(calls[0][1]) == expand(loc, d))
        havoc(ctx.launch_configurations)
