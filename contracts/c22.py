"""C22: the output of a process goes to exactly the configured targets."""
import os
import sys

from .common import *
from .execlocal import World, tm
from launch.actions import ExecuteLocal  # noqa: F401
import launch.logging as LL
from launch.logging import LaunchConfig

L = 'launch.logging:'
SOURCES, TARGETS = ('both', 'stdout', 'stderr'), ('screen', 'log', 'own_log')
PRESETS = {'screen': dict(both={'screen'}), 'log': dict(both={'log'}, stderr={'screen'}), 'both': dict(both={'log', 'screen'}),
           'own_log': dict(both={'own_log'}, stdout={'own_log'}, stderr={'own_log'}),
           'full': dict(both={'screen', 'log', 'own_log'}, stdout={'own_log'}, stderr={'own_log'})}


def has(targets, t):
    """Whether a target is in a normalized set of targets."""
    return tm(rt.in_(t, targets))


def as_given(name, got, want):
    """The normalized configuration: the targets of each source; want[source] is a function from target to condition."""
    prove(name, And(*[has(rt.getitem(got, s), t) == tm(want[s](t)) for s in SOURCES for t in TARGETS]))


@unit('C22', [L + '_normalize_output_configuration'])
def preset_names():
    """Any text as configuration: the presets, and nothing else."""
    c = fresh_str('configuration')
    k, r = outcome(do, LL._normalize_output_configuration, c)
    known = Or(*[c.term == p for p in PRESETS])
    if k == 'raise':
        prove('only an unknown name is rejected', And(isinstance(r, ValueError), Not(known)), repr(r))
        return
    prove('an unknown name is rejected', known)
    for s in SOURCES:
        for t in TARGETS:
            prove('a preset means what is documented', has(rt.getitem(r, s), t) ==
                  Or(*[c.term == p for p, m in PRESETS.items() if t in m.get(s, ())]))


class Others(Fake):
    pass


@unit('C22', [L + '_normalize_output_configuration'])
def mappings():
    """Any mapping from sources to targets, given as a text, a list of any length, a set or an iterator."""
    cfg = {}
    valid, want = [], {s: (lambda t: False) for s in SOURCES}

    def targets(s):
        how = choose(4)
        if how == 0:
            d = fresh_str('target')
            valid.append(Or(*[d.term == t for t in TARGETS]))
            want[s] = lambda t: d.term == t
            return d
        if how == 1:
            return set()
        l = fresh_seq('targets', StrK)
        q = ForAllPrefix('valid ' + s, l, lambda x: Or(*[x == t for t in TARGETS]))
        valid.append(q.f(q.n))
        want[s] = lambda t: z3.Contains(l.term, Unit(StringVal(t)))
        return l if how == 2 else iter_of(l)

    def iter_of(l):
        return rt.call(iter, l)
    n = choose(5)
    if n < 3:
        cfg[SOURCES[n]] = targets(SOURCES[n])
    elif n == 3:
        for s in ('stderr', 'both'):
            cfg[s] = {'screen'} if s == 'stderr' else targets(s)
        want['stderr'] = lambda t: t == 'screen'
    else:
        s = fresh_str('source')
        assume(And(*[s.term != x for x in SOURCES]))
        d = VDict.fresh('configuration', StrK, StrK)
        d.order = VList([[('both', 'log'), (s, 'screen')], [(s, 'screen'), ('stderr', 'screen')], [(s, 'screen')]][choose(3)])
        k, r = outcome(do, LL._normalize_output_configuration, d)
        prove('an unknown source is rejected', k == 'raise' and isinstance(r, ValueError), repr(r))
        return
    k, r = outcome(do, LL._normalize_output_configuration, cfg)
    ok = And(*valid) if valid else z3.BoolVal(True)
    if k == 'raise':
        prove('only an unknown target is rejected', And(isinstance(r, ValueError), Not(ok)), repr(r))
        return
    prove('an unknown target is rejected', ok)
    as_given('exactly what is given, nothing for a source that is not', r, want)


@unit('C22', [L + '_normalize_output_configuration'])
def no_configuration():
    """Things that are neither a text nor a mapping."""
    c = [None, 3, ['screen'], ('stdout', 'screen'), {'screen'}, b'screen', 1.5, True, Others()][choose(9)]
    k, r = outcome(do, LL._normalize_output_configuration, c)
    prove('anything else is rejected', k == 'raise' and isinstance(r, ValueError), repr(r))


class Handler(Fake):
    """A handler: where it writes, and how, by default and for a logger."""

    def __init__(self, where):
        self.where, self.formatter, self.per_logger = where, None, []

    def setFormatter(self, f):
        self.formatter = f

    def setFormatterFor(self, logger, f):
        self.per_logger.append((logger, f))


class Logger(Fake):
    def __init__(self, name):
        self.name, self.handlers = name, VList([])

    def addHandler(self, h):
        if h not in self.handlers.items:
            self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers.items:
            self.handlers.remove(h)


class Files:
    """Contracts of launch_config and of logging: one handler per file, one logger per name."""

    def __init__(self):
        self.files, self.loggers = [], []
        self.screen, self.main = Handler('screen'), Handler('main log')
        self.config = new(LaunchConfig)
        use_contract(LaunchConfig.get_screen_handler, lambda c: self.screen)
        use_contract(LaunchConfig.get_log_file_handler, self.file)
        patch(LL, 'launch_config', self.config)
        patch(LL, 'logging', Facade(logging, getLogger=self.get_logger))

    def file(self, c, file_name='launch.log'):
        if isinstance(file_name, str) and not isinstance(file_name, SymStr) and file_name == 'launch.log' or \
                E().branch(tm(file_name) == 'launch.log'):
            return self.main
        for h in self.files:
            if E().branch(tm(h.where) == tm(file_name)):
                return h
        self.files.append(Handler(file_name))
        return self.files[-1]

    def get_logger(self, name=None):
        for g in self.loggers:
            if E().branch(tm(g.name) == tm(name)):
                return g
        self.loggers.append(Logger(name))
        return self.loggers[-1]


CONFIG_ASSUMES = ('logging.getLogger gives one logger per name, logger.addHandler adds a handler once',
                  'the name of the process is not "launch" (its combined log would be the main log)')


def line(f):
    """What a formatter makes of a line of output."""
    return f.format(logging.LogRecord('x', logging.INFO, 'x', 1, 'a %s line', (), None))


@unit('C22', [L + 'get_output_loggers', L + '_normalize_output_configuration'], assumes=CONFIG_ASSUMES, budget=200)
def routing():
    """Every normalized configuration, and every preset, for a process of any name."""
    w = Files()
    name = fresh_str('process')
    assume(name.term != 'launch')
    n = choose(10)
    if n < 5:
        cfg = list(PRESETS)[n]
        want = {s: PRESETS[cfg].get(s, set()) for s in SOURCES}
    elif n < 9:
        # all subsets of targets for one pair of sources, and some for the third
        want = {'both': [set(), {'screen'}, {'log', 'own_log'}, {'own_log'}][n - 5]}
        for s in ('stdout', 'stderr'):
            b = choose(8)
            want[s] = {t for i, t in enumerate(TARGETS) if b >> i & 1}
        cfg = {s: set(t) for s, t in want.items()}
    else:
        b = choose(8)
        want = {s: set() for s in SOURCES}
        want['both'] = {t for i, t in enumerate(TARGETS) if b >> i & 1}
        cfg = {'both': list(want['both'])}
    again = choose(2)
    for _ in range(1 + again):
        k, r = outcome(do, LL.get_output_loggers, name, cfg)
        prove('a valid configuration is accepted', k == 'ok', repr(r))
        r = list(rt.as_iter(r)) if not isinstance(r, tuple) else r
        prove('two loggers', len(r) == 2)
    prove('the streams are separate', r[0] is not r[1])
    for g, s in zip(r, ('stdout', 'stderr')):
        hs = list(g.handlers.items)
        both = want[s] | want['both']
        own = [h for h in w.files if E().branch(tm(h.where) == Concat(name.term, StringVal('-%s.log' % s)))]
        comb = [h for h in w.files if E().branch(tm(h.where) == Concat(name.term, StringVal('.log')))]
        exp = [w.screen] * ('screen' in both) + [w.main] * ('log' in both)
        prove('one log per source', len(own) <= 1 and len(comb) <= 1)
        exp += own[:'own_log' in want[s]] + comb[:'own_log' in want['both']]
        prove('a log of its own exactly if configured', ('own_log' in want[s]) <= len(own) and ('own_log' in want['both']) <= len(comb))
        prove('exactly the configured targets, each once', len(hs) == len(exp) and all(any(x is h for h in hs) for x in exp),
              repr([getattr(h, 'where', h) for h in hs]))
        for h in exp:
            f = [f for lg, f in h.per_logger if lg is g or lg is g.name]
            f = f[-1] if f else h.formatter
            prove('lines are written as they are', f is not None and line(f).endswith('a %s line')
                  and (h is w.main or line(f) == 'a %s line'), repr(f))
    prove('no other log is written', len(w.files) == len([h for h in w.files if any(h in g.handlers.items for g in r)]))


@unit('C22', [L + 'get_output_loggers', L + '_normalize_output_configuration'], assumes=CONFIG_ASSUMES)
def rejected():
    """An invalid configuration configures nothing."""
    w = Files()
    name = fresh_str('process')
    bad = fresh_str('bad')
    assume(And(*[bad.term != x for x in SOURCES + TARGETS + tuple(PRESETS)]))
    cfg = [bad, {'stdout': bad}, {'both': 'screen', 'stderr': ['log', bad]}, None, {'stdin': 'screen'}][choose(5)]
    k, r = outcome(do, LL.get_output_loggers, name, cfg)
    prove('an invalid configuration is rejected', k == 'raise' and isinstance(r, ValueError), repr(r))
    prove('nothing is written then', all(not g.handlers.items for g in w.loggers) and not w.files)


@unit('C22', [L + 'LaunchConfig.get_log_file_handler', L + 'LaunchConfig.get_log_file_path', L + 'LaunchConfig.get_screen_handler',
              L + 'LaunchConfig.log_handler_factory', L + 'LaunchConfig.__init__', L + 'LaunchConfig.reset', L + 'reset'],
      assumes=('a file handler writes to the file of the given path', 'os.path.join'))
def handlers():
    """One handler per log file and one for the screen."""
    made = []

    def factory(path, encoding=None, **k):
        made.append((Handler(path), encoding))
        return made[-1][0]
    screens = []

    def stream(s=None):
        screens.append(Handler(s))
        return screens[-1]
    patch(LL, 'handlers', Facade(LL.handlers, StreamHandler=stream, WatchedFileHandler=factory, FileHandler=factory))
    patch(LL, 'os', Facade(os, path=Facade(os.path, join=lambda a, b: SymStr(Concat(tm(a), StringVal('/'), tm(b))))))
    c = new(LaunchConfig)
    where = fresh_str('log directory')
    rt.setattr_(c, '_log_dir', where)
    a, b = fresh_str('file'), fresh_str('other file')
    ha = do(c.get_log_file_handler, a)
    hb = do(c.get_log_file_handler, b)
    prove('one handler per file', tm(a.term == b.term) == (ha is hb))
    prove('the same handler every time', do(c.get_log_file_handler, a) is ha and do(c.get_log_file_handler, b) is hb)
    hm = do(c.get_log_file_handler)
    prove('the main log', (hm is ha) == (a.term == 'launch.log'))
    for h, n in ((ha, a), (hb, b), (hm, lift('launch.log'))):
        prove('a log is the file of that name in the log directory', tm(h.where) == Concat(where.term, StringVal('/'), tm(n)))
    prove('text is written as UTF-8', all(e is not None and e.lower().replace('-', '') == 'utf8' for _, e in made))
    s = do(c.get_screen_handler)
    prove('one screen', do(c.get_screen_handler) is s and len(screens) == 1)
    prove('the screen is not a log', all(s is not h for h in (ha, hb, hm)))
    how = choose(2)
    if how:
        do(c.reset)
        prove('after a reset all handlers are new', do(c.get_screen_handler) is not s and not c.file_handlers)


class Plain(Fake):
    """A handler class of the standard library."""

    def __init__(self, *a, **k):
        self.given = a, k

    def format(self, record):
        return 'plain', record


class Fmt(Fake):
    def __init__(self, n):
        self.n = n

    def format(self, record):
        return self.n, record


class Rec(Fake):
    def __init__(self, name):
        self.name = name
        self.levelno, self.lineno, self.created, self.msg = fresh_int('level'), fresh_int('line'), fresh_int('time'), fresh_str('message')


class Named(Fake):
    def __init__(self, name):
        self.name = name


H = 'launch.logging.handlers:with_per_logger_formatting.<locals>._trait.'


@unit('C22', [H + '__init__', H + 'setFormatterFor', H + 'unsetFormatterFor', H + 'format'],
      assumes=('the handlers of the standard library',))
def formatting():
    """A line is written with the format set for its logger."""
    cls = do(type(LL.handlers).__init__.__globals__['with_per_logger_formatting'], Plain)
    a, b, c = fresh_str('logger'), fresh_str('other logger'), fresh_str('third logger')
    h = new(cls, 'x', encoding='utf-8')
    prove('a handler is constructed as usual', h.given == (('x',), {'encoding': 'utf-8'}))
    do(h.setFormatterFor, a if choose(2) else Named(a), Fmt(1))
    do(h.setFormatterFor, b if choose(2) else Named(b), Fmt(2))
    gone = choose(2)
    if gone:
        do(h.unsetFormatterFor, c if choose(2) else Named(c))
    n = fresh_str('name')
    rec = Rec(n)
    k, r = outcome(do, h.format, rec)
    prove('formatting works', k == 'ok' and r[1] is rec, repr(r))
    off = And(gone == 1, n.term == c.term)
    prove('the last format set for the logger, or the default one',
          And((r[0] == 2) == And(n.term == b.term, Not(off)),
              (r[0] == 1) == And(n.term == a.term, n.term != b.term, Not(off))))


@unit('C22', [L + 'LaunchLogger.__new__', L + 'LaunchLogger.__init__', L + 'reset', L + 'get_logger'],
      assumes=('logging.Logger: a record goes to the handlers of the logger, and to its parents only if it propagates',
               'logging.setLoggerClass: the class of the loggers made from then on'))
def loggers():
    """Loggers write to their own handlers only."""
    classes = []
    patch(LL, 'logging', Facade(logging, setLoggerClass=classes.append))
    cfg = new(LaunchConfig)
    patch(LL, 'launch_config', cfg)
    old = LL.LaunchLogger.all_loggers
    patch(LL.LaunchLogger, 'all_loggers', VList([]))
    g = new(LL.LaunchLogger, 'some logger', *[10][:choose(2)])
    prove('nothing reaches the handlers of other loggers', g.propagate is False)
    prove('loggers are remembered', any(x is g for x in LL.LaunchLogger.all_loggers))
    how = choose(2)
    h = Handler('old')
    g.handlers = VList([h])
    g.level = 10
    do(LL.reset)
    prove('a reset detaches all handlers', len(g.handlers) == 0)
    prove('a reset takes back the level of the logger', g.level == logging.NOTSET)
    prove('a reset keeps the logger class', classes == [LL.LaunchLogger])
    s, m = Handler('screen'), Handler('main log')
    use_contract(LaunchConfig.get_screen_handler, lambda c: s)
    use_contract(LaunchConfig.get_log_file_handler, lambda c, n='launch.log': m if n == 'launch.log' else None)
    patch(LL, 'logging', Facade(logging, getLogger=lambda n=None: g))
    for _ in range(1 + how):
        r = do(LL.get_logger, 'some logger')
    prove('messages of launch go to the screen and to the main log', r is g and len(g.handlers) == 2
          and any(x is s for x in g.handlers) and any(x is m for x in g.handlers))


T = 'launch.actions.execute_local:ExecuteLocal.'


@unit('C22', [T + '__init__', T + 'execute'], assumes=('expansion of substitutions (C12)', 'get_output_loggers (other units)'), budget=120)
def asked():
    """A process asks for the loggers of its own name with its own configuration."""
    env = environ()
    how = choose(3)
    if how == 0:
        out = fresh_str('output')
    elif how == 1:
        out = {'stdout': 'screen'}
    else:
        out = None
    kw = {} if out is None else {'output': out}
    w = World(execute=False, **kw)
    forced = E().branch(env.has('OVERRIDE_LAUNCH_PROCESS_OUTPUT').term)
    r = do(w.action.execute, w.ctx)
    prove('loggers are asked for once', len(w.asked) == 1)
    name, cfg = w.asked[0]
    prove('for the process', name == 'proc')
    if forced:
        prove('the configuration of the environment', tm(cfg) == tm(env['OVERRIDE_LAUNCH_PROCESS_OUTPUT']))
    elif how == 1:
        prove('the given mapping', isinstance(cfg, dict) and set(cfg) == {'stdout'} and cfg['stdout'] == 'screen')
    else:
        prove('the given configuration, or the log', tm(cfg) == (out.term if how == 0 else StringVal('log')))
