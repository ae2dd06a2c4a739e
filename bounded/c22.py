import contextlib
import io
import itertools
import os
import logging
import re
import shutil
import sys
import tempfile

import launch.logging as LL
from launch.actions import ExecuteLocal  # noqa: F401
from .common import *

RULE = ('all presets, all mappings of sources to sets of targets (in several forms), random texts and things that are no configuration; lines written to '
        'both streams of one or two processes in turn; what arrives on the screen, in the main log and in every file of the log directory, against '
        'the documentation; non-trivial: distinct configurations')
TARGETS = ('screen', 'log', 'own_log')
PRESETS = {'screen': dict(both=['screen']), 'log': dict(both=['log'], stderr=['screen']), 'both': dict(both=['log', 'screen']),
           'own_log': dict(both=['own_log'], stdout=['own_log'], stderr=['own_log']),
           'full': dict(both=['screen', 'log', 'own_log'], stdout=['own_log'], stderr=['own_log'])}


def subsets(x):
    return [c for n in range(len(x) + 1) for c in itertools.combinations(x, n)]


@contextlib.contextmanager
def fresh():
    d = tempfile.mkdtemp(prefix='vc22')
    keep, out = sys.stdout, io.StringIO()
    try:
        sys.stdout = out
        LL.reset()
        LL.launch_config.log_dir = d
        yield d, out
    finally:
        sys.stdout = keep
        for f in LL.launch_config.file_handlers.values():
            f.close()
        LL.reset()
        shutil.rmtree(d)


def meaning(c):
    """Targets of each stream: on the screen, in the main log, in its own file, in the combined file."""
    c = PRESETS.get(c, c) if isinstance(c, str) else c
    c = {k: {v} if isinstance(v, str) else set(v) for k, v in c.items()}
    both = c.get('both', set())
    return {s: ('screen' in both | c.get(s, set()), 'log' in both | c.get(s, set()), 'own_log' in c.get(s, set()), 'own_log' in both)
            for s in ('stdout', 'stderr')}


def run(h):
    r = h.rng

    def form(v, i):
        return (list, set, tuple, frozenset, iter, lambda v: (x for x in v), lambda v: list(v) * 2)[i % 7](v)

    def one(configs, script, again=False, forms=None):
        names = ['proc-%d' % i for i in range(len(configs))]
        if again == 'odd':
            names = ['a.b %s é', 'a.b'][:len(configs)]

        def build(c, i):
            if isinstance(c, str):
                return c
            return {k: v if isinstance(v, str) else form(v, i + j) for j, (k, v) in enumerate(c.items())}

        def f():
            with fresh() as (d, out):
                ls = []
                for i, c in enumerate(configs):
                    ls.append(LL.get_output_loggers(names[i], build(c, forms or 0)))
                    if again is True:
                        eq(LL.get_output_loggers(names[i], build(c, forms or 0)), ls[-1], 'the same loggers')
                screen, main, files = [], [], {}
                for i, c in enumerate(configs):
                    for s, m in meaning(c).items():
                        if m[2]:
                            files['%s-%s.log' % (names[i], s)] = []
                        if m[3]:
                            files['%s.log' % names[i]] = []
                for i, s, text in script:
                    if i >= len(configs):
                        continue
                    ls[i][s == 'stderr'].log((logging.INFO, logging.ERROR, logging.WARNING)[len(text) % 3], text)
                    m = meaning(configs[i])[s]
                    if m[0]:
                        screen.append(text)
                    if m[1]:
                        main.append(text)
                    if m[2]:
                        files['%s-%s.log' % (names[i], s)].append(text)
                    if m[3]:
                        files['%s.log' % names[i]].append(text)
                eq(out.getvalue(), ''.join(x + '\n' for x in screen), 'screen')
                have = {n: open(os.path.join(d, n), encoding='utf-8').read() for n in os.listdir(d)}
                log = have.pop('launch.log', '')
                eq(re.sub(r'(?m)^\d+\.\d{7} ', '', log), ''.join(x + '\n' for x in main), 'main log')
                eq(have, {n: ''.join(x + '\n' for x in t) for n, t in files.items()}, 'other logs')
        h.case('route', (configs, script, again, forms), f, 20)

    def bad(c):
        def f():
            with fresh() as (d, out):
                raises(ValueError, lambda: LL.get_output_loggers('p', c), 'rejection')
                eq(os.listdir(d), [], 'files')
        h.case('reject', repr(c), f, 20)
    plain = [(0, 'stdout', 'one'), (0, 'stderr', 'two'), (1, 'stdout', 'three'), (0, 'stdout', 'é %s {msg}'), (1, 'stderr', 'four')]
    for p in PRESETS:
        one([p], plain)
        one([p, p], plain, True)
        one([p], plain, 'odd')
        for q in PRESETS:
            one([p, q], plain)
    subs = subsets(TARGETS)
    n = 0
    for a in [None] + subs:
        for b in [None] + subs:
            for c in [None] + subs:
                n += 1
                if n % 3 and h.tier == 'quick':
                    continue
                one([{k: v for k, v in (('both', a), ('stdout', b), ('stderr', c)) if v is not None}], plain, n % 2 == 0, n)
    for s in ('both', 'stdout', 'stderr'):
        for t in TARGETS:
            one([{s: t}], plain)
    for c in ['', 'Screen', 'screen ', 'stdout', 'logs', 'none', None, 3, ['screen'], ('log',), {'screen'}, b'screen', {'stdin': 'screen'}, {'': 'log'},
              {'both': 'file'}, {'both': ['screen', 'x']}, {'stderr': ''}, {'stdout': 'both'}, {'stdout': ['screen'], 'stderr': 'full'}, {'Both': 'log'},
              {'both': {'log'}, 'other': 'log'}, {'both': iter(['log', 'y'])}]:
        bad(c)
    allc = list(PRESETS) + [{k: v for k, v in (('both', a), ('stdout', b), ('stderr', c)) if v is not None}
                            for a in [None] + subs for b in [None] + subs for c in [None] + subs]
    for _ in range(h.n(60)):
        k = r.randint(1, 3)
        script = [(r.randrange(k), r.choice(('stdout', 'stderr')), r.choice(['x', 'line', '%d', '{levelname}', '日本', ''])) for _ in range(r.randint(0, 8))]
        one([r.choice(allc) for _ in range(k)], script, r.random() < .3, r.randrange(7))

    def ascii():
        keep = LL.locale.getpreferredencoding
        try:
            LL.locale.getpreferredencoding = lambda *a: 'ascii'
            with fresh() as (d, out):
                g = LL.get_output_loggers('p', {'both': ['screen', 'own_log']})[0]
                g.info('caf\xe9 \u65e5')
                g.info('next')
                eq(out.getvalue(), 'caf? ?\nnext\n', 'what the screen cannot show is replaced')
                eq(open(os.path.join(d, 'p.log'), encoding='utf-8').read(), 'caf\xe9 \u65e5\nnext\n', 'log')
        finally:
            LL.locale.getpreferredencoding = keep
    h.case('ascii', 'screen', ascii, 20)

    def starting():
        # usable right away, and as new after a reset
        rec = logging.makeLogRecord({'name': 'n', 'msg': 'm', 'levelname': 'INFO'})
        with fresh():
            c = LL.launch_config
            eq(LL.LaunchConfig().get_screen_handler().format(rec), '[INFO] [n]: m', 'format of a new configuration')
            c.set_screen_format('{message} only', screen_style='{')
            eq(c.get_screen_handler().format(rec), 'm only', 'format that was set')
            d = c.log_dir
            LL.reset()
            c.log_dir = d
            eq(c.get_screen_handler().format(rec), '[INFO] [n]: m', 'format after a reset')
    h.case('starting', None, starting)

    def process(c, forced):
        """The configuration that a process is given."""
        got = []

        def f():
            keep, env = LL.get_output_loggers, os.environ.get('OVERRIDE_LAUNCH_PROCESS_OUTPUT')
            try:
                os.environ.pop('OVERRIDE_LAUNCH_PROCESS_OUTPUT', None)
                if forced is not None:
                    os.environ['OVERRIDE_LAUNCH_PROCESS_OUTPUT'] = forced

                def ask(name, cfg):
                    got.append((name, cfg))
                    raise KeyError
                LL.get_output_loggers = ask
                from launch.descriptions import Executable
                from launch.substitutions import TextSubstitution
                k = {} if c is None else {'output': [TextSubstitution(text=c[:2]), TextSubstitution(text=c[2:])] if c == 'screen' else c}
                a = ExecuteLocal(process_description=Executable(cmd=['some/program'], name='me'), **k)
                ctx = LaunchContext(noninteractive=True)
                loop = VirtualLoop()
                ctx._set_asyncio_loop(loop)
                raises(KeyError, lambda: a.execute(ctx), 'asking')
                loop.close()
            finally:
                LL.get_output_loggers = keep
                os.environ.pop('OVERRIDE_LAUNCH_PROCESS_OUTPUT', None)
                if env is not None:
                    os.environ['OVERRIDE_LAUNCH_PROCESS_OUTPUT'] = env
            eq(len(got), 1, 'requests')
            eq(re.sub(r'-\d+$', '', got[0][0]), 'me', 'name')
            eq(got[0][1], forced if forced is not None else 'log' if c is None else c, 'configuration')
        h.case('process', (c, forced), f, 20)
    for c in (None, 'screen', 'own_log', {'stdout': 'screen'}, {}):
        for forced in (None, 'both'):
            process(c, forced)
