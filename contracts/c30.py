"""C30: each run logs below a directory of its own, in the configured format and level."""
import datetime
import os
import socket
import warnings

from .common import *
from pyvc.api import cut_while, invariant
from .execlocal import tm
import launch.logging as LL
from launch.logging import LaunchConfig

L = 'launch.logging:'
EXP, ABS, DIRN = (uf(n, StrS, StrS) for n in ('expanduser', 'abspath', 'dirname'))
FILES = 'the file system: os.makedirs, mkdir, symlink, unlink, replace fail rather than overwrite'


def s_(t):
    return StrK.wrap(t)


def joined(a, b):
    """os.path.join, exactly."""
    a, b = StrK.unwrap(a), StrK.unwrap(b)
    return If(z3.PrefixOf(StringVal('/'), b), b,
              If(Or(a == '', z3.SuffixOf(StringVal('/'), a)), Concat(a, b), Concat(a, StringVal('/'), b)))


def abspath(p):
    r = ABS(StrK.unwrap(p))
    E().assume(And(ABS(r) == r, Length(r) > 0))
    return s_(r)


def expanduser(p):
    return s_(EXP(StrK.unwrap(p)))


def normpath(p):
    """What it is for the path of a directory given as an absolute one; of others, nothing is known."""
    r = uf('normpath', StrS, StrS)(StrK.unwrap(p))
    E().assume(And(ABS(r) == ABS(StrK.unwrap(p)), Implies(ABS(StrK.unwrap(p)) == StrK.unwrap(p), r == StrK.unwrap(p))))
    return s_(r)


def paths(**k):
    return Facade(os.path, join=lambda a, *bs: _join(a, bs), abspath=abspath, expanduser=expanduser, normpath=normpath,
                  dirname=lambda p: s_(DIRN(StrK.unwrap(p))), **k)


def _join(a, bs):
    for b in bs:
        a = s_(joined(a, b))
    return a


# ---------------------------------------------------------------- where
@unit('C30', [L + '_get_logging_directory'], assumes=('os.path.expanduser, abspath: uninterpreted', 'os.path.join, exactly'))
def where():
    """Any environment."""
    env = fresh_dict('environ', StrK, StrK)
    patch(LL, 'os', Facade(os, environ=env, path=paths()))
    k, r = outcome(do, LL._get_logging_directory)
    given = lambda n: And(lift(rt.in_(n, env)), tm(env.at(lift(n))) != '')   # noqa: E731
    value = lambda n: tm(env.at(lift(n)))   # noqa: E731
    src = If(given('ROS_LOG_DIR'), value('ROS_LOG_DIR'),
             If(given('ROS_HOME'), joined(s_(value('ROS_HOME')), lift('log')), StringVal('~/.ros/log')))
    prove('always known', k == 'ok', repr(r))
    prove('$ROS_LOG_DIR, else $ROS_HOME/log, else ~/.ros/log; absolute', tm(r) == ABS(EXP(src)))


class Denied(PermissionError):
    pass


@unit('C30', [L + '_make_unique_log_dir'],
      assumes=('os.makedirs and os.mkdir make the directory or raise: FileExistsError if it exists, unless that is allowed',
               'other processes make and remove directories at any time', 'no time or name of a host starts with a slash',
               'a directory can be found in the end (termination)'))
def fresh_directory():
    """Any clock, host and number of directories that exist or are made meanwhile by other runs."""
    cut_while(lambda site: '_make_unique_log_dir' in site)
    g = Fake()
    track(g)
    empty = Empty(z3.SeqSort(StrS))
    rt.setattr_(g, 'made', VList(kind=StrK, term=empty))

    def make(p, mode=0o777, exist_ok=False):
        how = choose(3)
        if how == 2:
            raise Denied()
        if how == 1:     # a directory of another run
            if exist_ok:
                return
            raise FileExistsError()
        rt.setattr_(g, 'made', VList(kind=StrK, term=Concat(g.made.as_term(StrK), Unit(StrK.unwrap(p)))))

    def there(p):
        return fresh_bool('exists')

    def join(a, *bs):
        for b in bs:
            E().assume(Not(z3.PrefixOf(StringVal('/'), StrK.unwrap(b))))
        return _join(a, bs)
    mod = paths(isdir=there, exists=there, lexists=there, isfile=there, islink=there)
    mod.join = join
    patch(LL, 'os', Facade(os, path=mod, makedirs=make, mkdir=lambda p, mode=0o777: make(p),
                           getpid=lambda: fresh_int('pid')))
    now = type('Now', (Fake,), {'strftime': lambda s, f: fresh_str('time')})
    patch(LL, 'datetime', Facade(datetime, datetime=Facade(datetime.datetime, now=lambda tz=None: now())))
    patch(LL, 'socket', Facade(socket, gethostname=lambda: fresh_str('host')))
    invariant('nothing made', lambda k: g.made.as_term(StrK) == empty)
    base = fresh_str('base')
    k, r = outcome(do, LL._make_unique_log_dir, base_path=base)
    if k == 'raise':
        prove('only if the file system refuses', isinstance(r, Denied), repr(r))
        return
    prove('the directory is one this run has made itself, and the only one', g.made.as_term(StrK) == Unit(tm(r)))
    prefix = If(Or(base.term == '', z3.SuffixOf(StringVal('/'), base.term)), base.term, Concat(base.term, StringVal('/')))
    prove('it is below the base directory', z3.PrefixOf(prefix, tm(r)))


class Disk:
    """Entries by path; entry: 'none', 'file', 'dir' or ('link', target)."""

    def __init__(self, trouble=True):
        self.entries, self.trouble, self.refused = [], trouble, False

    def at(self, p):
        p = StrK.unwrap(p)
        for q, c in reversed(self.entries):
            if E().branch(p == q):
                return c
        return 'none'

    def put(self, p, c):
        self.entries.append((StrK.unwrap(p), c))

    def may_fail(self, exc):
        if self.trouble and choose(2):
            self.refused = True
            raise exc

    def unlink(self, p):
        c = self.at(p)
        self.may_fail(FileNotFoundError())
        if c == 'none':
            raise FileNotFoundError()
        if c == 'dir':
            raise IsADirectoryError()
        self.put(p, 'none')

    def symlink(self, target, p, target_is_directory=False):
        c = self.at(p)
        self.may_fail(FileExistsError())
        if c != 'none':
            raise FileExistsError()
        self.put(p, ('link', target))

    def replace(self, a, b):
        c, d = self.at(a), self.at(b)
        if d == 'dir':
            raise IsADirectoryError()
        self.put(b, c)
        self.put(a, 'none')

    def islink(self, p):
        return isinstance(self.at(p), tuple)

    def lexists(self, p):
        return self.at(p) != 'none'

    def exists(self, p):
        c = self.at(p)
        return bool(c[2]) if isinstance(c, tuple) and len(c) > 2 else c != 'none'

    def isdir(self, p):
        c = self.at(p)
        return bool(c[2]) if isinstance(c, tuple) and len(c) > 2 else c == 'dir' or isinstance(c, tuple)

    def readlink(self, p):
        c = self.at(p)
        if not isinstance(c, tuple):
            raise OSError()
        return c[1]

    def module(self):
        return Facade(os, unlink=self.unlink, remove=self.unlink, symlink=self.symlink, replace=self.replace, rename=self.replace,
                      readlink=self.readlink,
                      path=paths(islink=self.islink, lexists=self.lexists, exists=self.exists, isdir=self.isdir,
                                 basename=lambda p: s_(uf('basename', StrS, StrS)(StrK.unwrap(p)))))


@unit('C30', [L + '_renew_latest_log_dir'], assumes=(FILES,))
def latest():
    """Whatever there is under the name, and whatever other runs do meanwhile."""
    d = Disk()
    patch(LL, 'os', d.module())
    log_dir = fresh_str('log directory')
    base = DIRN(log_dir.term)
    link = joined(s_(base), lift('latest'))
    before = ['none', 'file', 'dir', ('link', fresh_str('old'), True), ('link', fresh_str('gone'), False)][choose(5)]
    d.put(s_(link), before)
    E().assume(log_dir.term != link)
    k, r = outcome(do, LL._renew_latest_log_dir, log_dir=log_dir)
    after = d.at(s_(link))
    if before in ('file', 'dir'):
        prove('anything but a link stays as it is', k == 'ok' and not r and after == before, repr(r))
    elif k == 'ok':
        prove('done', bool(r), repr(r))
        prove('the link leads to the directory', isinstance(after, tuple) and And(Or(
            tm(after[1]) == log_dir.term, tm(after[1]) == uf('basename', StrS, StrS)(log_dir.term))))
    else:
        prove('only if the file system refuses', isinstance(r, OSError) and d.refused, repr(r))
    for q, _ in d.entries:
        prove('only names of the same directory are touched', Or(q == link, DIRN(q) == base))


@unit('C30', [L + 'LaunchConfig.log_dir', L + 'LaunchConfig.get_log_file_path', L + 'LaunchConfig.reset', L + 'LaunchConfig.__init__',
              L + 'log_launch_config'],
      assumes=('os.path.isdir of the file system', 'os.path.abspath: uninterpreted', 'logging.root'))
def one_directory():
    """The directory of a run is made when first asked for and the same from then on."""
    made, renewed, warned = [], [], []
    base = fresh_str('base')

    def make(*, base_path):
        prove('below the configured directory', tm(base_path) == base.term)
        made.append(abspath(fresh_str('fresh')))
        return made[-1]

    def renew(*, log_dir):
        prove('the link is renewed for the directory just made', log_dir is made[-1])
        renewed.append(log_dir)
        how = choose(4)
        if how > 1:
            raise FileExistsError() if how == 2 else Denied()
        E().path.linked = how == 1
        return how == 1
    E().path.linked = False
    use_contract(LL._get_logging_directory, lambda: base)
    use_contract(LL._make_unique_log_dir, make)
    use_contract(LL._renew_latest_log_dir, renew)
    use_contract(warnings.warn, lambda *a, **k: warned.append(a))
    isdir = fresh_bool('is a directory')
    patch(LL, 'os', Facade(os, environ={}, path=paths(isdir=lambda p: isdir)))
    c = new(LaunchConfig)
    patch(LL, 'launch_config', c)
    lines = []
    logger = type('Logger', (Fake,), {'info': lambda s, t, *a: lines.append(t)})()
    how = choose(6)
    if how == 0:
        do(LL.log_launch_config, logger=logger)
        prove('nothing is made before it is asked for', not made and len(lines) == 1)
    if how == 5:
        c.file_handlers['launch.log'] = object()
        k, r = outcome(do, LL.log_launch_config, logger=logger)
        prove('a link that cannot be renewed is warned about, no more', k == 'ok', repr(r))
        if k == 'raise':
            return
        prove('where the logs are is said', len(lines) == 2 and z3.Contains(tm(lines[0]), tm(made[0])))
    k, a = outcome(lambda: getattr(c, 'log_dir'))
    prove('a directory is made once', k == 'ok' and a is made[0] and len(made) == len(renewed) == 1, repr(a))
    if k == 'raise':
        return
    prove('a link that cannot be renewed is warned about, no more', len(warned) == (0 if E().path.linked else 1))
    k, b = outcome(do, c.get_log_file_path, 'x.log')
    prove('log files are in it', k == 'ok' and tm(b) == joined(a, lift('x.log')), repr(b))
    k, b = outcome(do, c.get_log_file_path)
    prove('the main log is in it', k == 'ok' and tm(b) == joined(a, lift('launch.log')), repr(b))
    prove('the same from then on', getattr(c, 'log_dir') is a and len(made) == len(renewed) == 1)
    if how == 1:
        d = fresh_str('given')
        k, r = outcome(rt.setattr_, c, 'log_dir', d)
        got = getattr(c, 'log_dir')
        prove('anything but a directory is rejected', isdir.term == (k == 'ok'), repr(r))
        prove('a rejected directory changes nothing', got is a if k == 'raise' else tm(got) == ABS(d.term))
        prove('the error says why', k == 'ok' or isinstance(r, ValueError), repr(r))
        prove('none is made for a given one', len(made) == 1)
    elif how in (2, 3):
        if how == 2:
            do(c.reset)
        else:
            rt.setattr_(c, 'log_dir', None)
        prove('nothing is made before it is asked for again', len(made) == 1)
        prove('a new one after a reset', getattr(c, 'log_dir') is made[-1] and len(made) == 2)


# ---------------------------------------------------------------- formats and levels
class Bytes_(Fake):
    """The bytes of a text: by codec and treatment of what it lacks."""

    def __init__(self, of, codec, errors):
        self.of, self.codec, self.errors = of, codec, errors

    def decode(self, codec='utf-8', errors='strict'):
        name = '%s/%s/%s' % (self.codec, self.errors, codec)
        return s_(uf('recoded:' + name, StrS, StrS)(self.of.term))


class Text_(SymStr):
    """A text of which bytes are made."""

    def encode(self, codec='utf-8', errors='strict'):
        codec = codec.lower().replace('-', '').replace('_', '').replace('iso88591', 'latin1')
        if errors == 'strict' and codec in ('latin1', 'ascii') and choose(2):
            raise UnicodeEncodeError(codec, 'é', 0, 1, 'a character the codec lacks')
        return Bytes_(self, codec, errors)


DEFAULT = '[{levelname}] [{name}]: {msg}'
STAMPED = '{created:.7f} ' + DEFAULT


class Formatter_(Fake):
    def __init__(self, fmt=None, datefmt=None, style='%', **k):
        self.fmt, self.style = fmt, style


class Handler_(Fake):
    formatter = None

    def setFormatter(self, f):
        self.formatter = f


@unit('C30', [L + 'LaunchConfig.set_screen_format', L + 'LaunchConfig.set_log_format', L + 'LaunchConfig.reset',
              L + 'LaunchConfig.get_screen_handler', L + 'LaunchConfig.get_log_file_handler', L + 'LaunchConfig.level'],
      assumes=('logging.Formatter: uninterpreted', 'the escape sequences of Python (unicode_escape)', 'sys.stdout'), budget=120)
def formats():
    """Any format and style, with any format in the environment."""
    env = {}
    patch(LL, 'os', Facade(os, environ=env, path=paths()))
    levels = []
    root = type('Root', (Fake,), {'setLevel': lambda s, v: levels.append(v), 'getEffectiveLevel': lambda s: levels[-1]})()
    patch(LL, 'logging', Facade(logging, Formatter=Formatter_, root=root))
    screen = Handler_()
    patch(LL, 'handlers', Facade(LL.handlers, StreamHandler=lambda s=None: screen, WatchedFileHandler=lambda p, **k: Handler_(),
                                 FileHandler=lambda p, **k: Handler_()))
    c = new(LaunchConfig)
    prove('messages from INFO on by default', levels == [logging.INFO])
    prove('the default formats', c.screen_formatter.fmt == DEFAULT and c.screen_formatter.style == '{'
          and c.file_formatter.fmt == STAMPED and c.file_formatter.style == '{')
    rt.setattr_(c, 'level', logging.WARN)
    prove('the level of all loggers', levels[-1] == logging.WARN and getattr(c, 'level') == logging.WARN)
    rt.setattr_(c, '_log_dir', '/logs')
    old_s, old_f = c.screen_formatter, c.file_formatter
    early = choose(2)      # whether the handlers exist before the format is set
    if early:
        do(c.get_screen_handler)
        do(c.get_log_file_handler)
    log = choose(2)
    aliases = {'default': STAMPED} if log else {'default': DEFAULT, 'default_with_timestamp': STAMPED}
    over = choose(3)
    text = Text_(fresh_str('of the environment').term)
    if over:
        env['OVERRIDE_LAUNCH_LOG_FORMAT' if log else 'OVERRIDE_LAUNCH_SCREEN_FORMAT'] = text if over == 1 else ''
        env['OVERRIDE_LAUNCH_SCREEN_FORMAT' if log else 'OVERRIDE_LAUNCH_LOG_FORMAT'] = 'another'
    E().assume(text.term != '')
    fmt = fresh_str('format')
    style = [None, '{', fresh_str('style')][choose(3)]
    none = choose(2)
    k, r = outcome(do, c.set_log_format if log else c.set_screen_format, None if none else fmt,
                   **({} if style is None else {'log_style' if log else 'screen_style': style}))
    if over == 1:
        t, st, none = uf('recoded:latin1/backslashreplace/unicode_escape', StrS, StrS)(text.term), None, False
    else:
        t, st = fmt.term, style
    got = c.file_formatter if log else c.screen_formatter
    h = do(c.get_log_file_handler) if log else do(c.get_screen_handler)
    alias = Or(*[t == a for a in aliases])
    if k == 'raise':
        prove('only an alias with a style is rejected', And(isinstance(r, ValueError), alias) if st is not None and not none else False,
              repr(r))
        prove('a rejected format changes nothing', got is (old_f if log else old_s) and h.formatter is got)
        return
    prove('an alias takes no style', True if st is None or none else Not(alias))
    if none:
        prove('no format', got is None)
    else:
        want = t
        for a, m in aliases.items():
            want = If(t == a, StringVal(m), want)
        prove('the format asked for, the environment first', And(tm(got.fmt) == want, tm(lift(got.style)) == (
            '{' if st is None else tm(lift(st)))))
        prove('it is in use', h.formatter is got)
    prove('the other format stays', (c.screen_formatter is old_s) if log else (c.file_formatter is old_f))
    do(c.reset)
    other = c.screen_formatter if log else c.file_formatter
    prove('a reset', And(levels[-1] == logging.INFO, not c.file_handlers))
    if not over:
        prove('back to the default formats', c.screen_formatter.fmt == DEFAULT and c.file_formatter.fmt == STAMPED)
    else:
        prove('the environment again', (other.fmt == 'another') if over else True)
