"""C30, bounded: real log directories, links, formats and levels."""
import datetime
import io
import logging
import re
import shutil
import sys
import warnings

import launch.logging as LL
from launch.substitutions import LaunchLogDir

from .common import *

RULE = ('random environments and contents of the log directory, runs of which others make directories at the same moment, random formats and '
        'styles by call and by environment, levels; non-trivial: distinct cases')
FORMATS = ['default', 'default_with_timestamp', '{msg}', '{levelname}|{name}|{msg}', 'é {msg} →', '{msg:>10}', '😀\\t{msg}', '{message}!',
           '%(msg)s', '$msg', '\\x41 {name} \\u2192 {msg}', 'x', '{msg}\\n--']
DEFAULT = '[{levelname}] [{name}]: {msg}'


def run(h):
    r = h.rng
    top = os.path.realpath(h.scratch)
    here = os.getcwd()
    keep = dict(os.environ)
    count = [0]

    def scene():
        count[0] += 1
        d = os.path.join(top, 'c30_%d' % count[0])
        for n in ('home', 'cwd', 'else/where'):
            os.makedirs(os.path.join(d, n))
        return d

    def begin(d, env):
        for n in ('ROS_LOG_DIR', 'ROS_HOME', 'OVERRIDE_LAUNCH_SCREEN_FORMAT', 'OVERRIDE_LAUNCH_LOG_FORMAT'):
            os.environ.pop(n, None)
        os.environ['HOME'] = os.path.join(d, 'home')
        os.environ.update(env)
        os.chdir(os.path.join(d, 'cwd'))
        LL.reset()

    def end(d):
        for f in LL.launch_config.file_handlers.values():
            f.close()
        os.chdir(here)
        os.environ.clear()
        os.environ.update(keep)
        LL.reset()
        shutil.rmtree(d)

    def text(d, s):
        return s and s.replace('@', d)

    def one_place(i):
        values = [None, '', '@/logs', '~/logs', 'rel', './rel/../rel2/', '@/else//where/', '..', '~', '@/else/where']
        log_dir, ros_home = (r.choice(values), r.choice(values)) if i >= 20 else (values[i % 10], values[i // 10])
        what = r.choice(['none', 'none', 'file', 'dir', 'link', 'dangling', 'loop'])
        how = r.choice(['attribute', 'path', 'substitution', 'handler'])

        def f():
            d = scene()
            try:
                env = {k: text(d, v) for k, v in (('ROS_LOG_DIR', log_dir), ('ROS_HOME', ros_home)) if v is not None}
                begin(d, env)
                src = env.get('ROS_LOG_DIR') or os.path.join(env.get('ROS_HOME') or '~/.ros', 'log')
                if src[0] == '~':
                    src = os.path.join(d, 'home') + src[1:]
                base = os.path.normpath(os.path.join(d, 'cwd', src))
                made = what != 'none'
                latest = os.path.join(base, 'latest')
                if made:
                    os.makedirs(os.path.join(base, 'old'), exist_ok=True)
                    open(os.path.join(base, 'old', 'x.log'), 'w').close()
                if what == 'file':
                    open(latest, 'w').close()
                elif what == 'dir':
                    os.makedirs(latest)
                elif what != 'none':
                    os.symlink({'link': os.path.join(base, 'old'), 'dangling': '/nowhere', 'loop': latest}[what], latest)
                before = {p: os.lstat(p).st_ino for p in (os.path.join(base, 'old', 'x.log'), latest if what in ('file', 'dir') else base)
                          if os.path.lexists(p)}
                names = set(os.listdir(base)) if os.path.isdir(base) else set()
                with warnings.catch_warnings(record=True) as said:
                    warnings.simplefilter('always')
                    if how == 'attribute':
                        got = LL.launch_config.log_dir
                    elif how == 'path':
                        got = os.path.dirname(LL.launch_config.get_log_file_path())
                    elif how == 'substitution':
                        got = LaunchLogDir().perform(LaunchContext())
                    else:
                        LL.get_logger('some.logger').info('hello')
                        got = LL.launch_config.log_dir
                os.chdir(os.path.join(d, 'else'))
                eq(os.path.dirname(got), base, 'the base directory')
                eq(sorted(set(os.listdir(base)) - names - {'latest'}), [os.path.basename(got)], 'what was made')
                assert os.path.isdir(got) and not os.path.islink(got), 'no directory'
                eq(sorted(os.listdir(got)), ['launch.log'] if how in ('handler', 'substitution') else [], 'contents')
                if what in ('file', 'dir'):
                    eq(len(said), 1, 'warnings')
                    assert not os.path.islink(latest), 'overwritten'
                else:
                    eq([str(w.message) for w in said], [], 'warnings')
                    eq(os.path.realpath(latest), os.path.realpath(got), 'the latest directory')
                eq({p: os.lstat(p).st_ino for p in before}, before, 'what was there')
                eq(LL.launch_config.log_dir, got, 'the same directory')
                eq(LL.launch_config.get_log_file_path('a.log'), os.path.join(got, 'a.log'), 'a log file')
                LL.reset()
                os.chdir(os.path.join(d, 'cwd'))
                again = LL.launch_config.log_dir
                assert again != got and os.path.isdir(again) and os.path.dirname(again) == base, 'a new directory after a reset'
            finally:
                end(d)
        h.case('place', (log_dir, ros_home, what, how, i), f, 20)

    def one_rival(i):
        clash = r.randint(0, 3)
        when = r.choice(['before', 'meanwhile'])
        kind = r.choice(['dir', 'file', 'full'])

        def f():
            d = scene()
            base = os.path.join(d, 'logs')
            os.makedirs(base)
            real = datetime.datetime
            ticks, rivals = [], []

            class Clock(datetime.datetime):
                @classmethod
                def now(cls, tz=None):
                    ticks.append(1)
                    n = len(ticks)
                    return real(2020, 1, 1, 0, 0, 0, n if n > clash else 0)

            class Module:
                datetime = Clock

                def __getattr__(self, n):
                    return getattr(datetime, n)

            def rival(p):
                if p not in rivals and len(rivals) == 0 and not os.path.lexists(p):
                    rivals.append(p)
                    if kind == 'file':
                        open(p, 'w').close()
                    else:
                        makedirs(p)
                        if kind == 'full':
                            open(os.path.join(p, 'launch.log'), 'w').close()

            makedirs, mkdir = os.makedirs, os.mkdir

            def racing(name, mode=0o777, exist_ok=False):
                if os.path.dirname(name) == base and when == 'meanwhile' and clash:
                    rival(name)
                return makedirs(name, mode, exist_ok)

            class Os:
                def __getattr__(self, n):
                    return racing if n == 'makedirs' else getattr(os, n)
            keep_ = LL.datetime, LL.os
            try:
                begin(d, {'ROS_LOG_DIR': base})
                LL.datetime, LL.os = Module(), Os()
                if when == 'before' and clash:
                    import socket
                    rival(os.path.join(base, '2020-01-01-00-00-00-000000-%s-%d' % (socket.gethostname(), os.getpid())))
                got = LL.launch_config.log_dir
                assert os.path.isdir(got), 'no directory'
                assert got not in rivals, 'the directory of another run'
                eq(os.listdir(got), [], 'contents')
            finally:
                LL.datetime, LL.os = keep_
                end(d)
        h.case('rival', (clash, when, kind, i), f, 20)

    def one_given(i):
        given = r.choice(['@/else', 'here', 'missing', '@/file', '@/else/where/', '.', '@/link', '@/link/where'])
        first = r.random() < .5

        def f():
            d = scene()
            try:
                begin(d, {'ROS_LOG_DIR': os.path.join(d, 'logs')})
                os.makedirs('here')
                open(os.path.join(d, 'file'), 'w').close()
                os.symlink(os.path.join(d, 'else'), os.path.join(d, 'link'))
                old = LL.launch_config.log_dir if first else None
                p = os.path.normpath(os.path.join(d, 'cwd', text(d, given)))
                if os.path.isdir(p):
                    LL.launch_config.log_dir = text(d, given)
                    os.chdir(top)
                    eq(LL.launch_config.log_dir.rstrip('/'), p, 'the directory given')
                    LL.get_logger('a').error('text')
                    assert open(os.path.join(p, 'launch.log')).read().endswith('text\n'), 'no log'
                    eq(os.path.exists(os.path.join(d, 'logs')), first, 'the default directory')
                else:
                    def s():
                        LL.launch_config.log_dir = text(d, given)
                    raises(ValueError, s, 'rejection')
                    got = LL.launch_config.log_dir
                    assert got == old if first else os.path.dirname(got) == os.path.join(d, 'logs'), 'changed'
            finally:
                end(d)
        h.case('given', (given, first, i), f, 20)

    def one_format(i):
        log = r.random() < .5
        fmt = r.choice(FORMATS + [None, None])
        style = r.choice([None, None, '{', '%', '$'])
        envs = [r.choice(FORMATS + ['', None, None]) for _ in range(2)]
        early = r.random() < .5
        level = r.choice([None, logging.DEBUG, logging.INFO, logging.ERROR])
        own = r.random() < .1
        message = r.choice(['hello', 'ünï →', '100%'])

        def f():
            d = scene()
            keep_out = sys.stdout
            sys.stdout = out = io.StringIO()
            try:
                env = {k: v for k, v in zip(('OVERRIDE_LAUNCH_SCREEN_FORMAT', 'OVERRIDE_LAUNCH_LOG_FORMAT'), envs) if v is not None}

                def meant(v, st, is_log):
                    if v == 'default' or v == 'default_with_timestamp' and not is_log:
                        if st:
                            return ValueError
                        return ('{created:.7f} ' if is_log or v != 'default' else '') + DEFAULT, '{'
                    try:
                        logging.Formatter(v, style=st or '{')
                    except ValueError:
                        return ValueError
                    return v, st or '{'

                def unescaped(v):
                    return (v.replace('\\t', '\t').replace('\\n', '\n').replace('\\x41', 'A').replace('\\u2192', '→'))
                now = []
                for is_log in (False, True):
                    v = envs[is_log]
                    now.append(meant(unescaped(v) if v else 'default', None, is_log))
                if ValueError in now:
                    raises(ValueError, lambda: begin(d, env), 'a format that is none')
                    return
                begin(d, env)
                os.makedirs(os.path.join(d, 'logs'))
                LL.launch_config.log_dir = os.path.join(d, 'logs')
                g = LL.get_logger('a.b') if early else None
                if fmt is not None:
                    if not envs[log]:
                        now[log] = meant(fmt, style, log)
                    call = LL.launch_config.set_log_format if log else LL.launch_config.set_screen_format
                    kw = {} if style is None else {('log' if log else 'screen') + '_style': style}
                    if now[log] is ValueError:
                        raises(ValueError, lambda: call(fmt, **kw), 'a format that is none')
                        return
                    call(fmt, **kw)
                if level is not None:
                    LL.launch_config.level = level
                g = g or LL.get_logger('a.b')
                if own:     # a level of its own lasts until the next reset
                    g.setLevel(logging.DEBUG)
                    LL.reset()
                    eq(g.getEffectiveLevel(), logging.INFO, 'the level after a reset')
                    eq(LL.launch_config.level, logging.INFO, 'the level after a reset')
                    return
                assert LL.get_logger('a.b') is g, 'the same logger'
                for n in ('debug', 'info', 'warning', 'error'):
                    getattr(g, n)(message)
                g.handlers and [x.flush() for x in g.handlers]
                seen = [x for x in ('DEBUG', 'INFO', 'WARNING', 'ERROR') if getattr(logging, x) >= (level or logging.INFO)]
                for is_log, got in ((False, out.getvalue()), (True, open(os.path.join(d, 'logs', 'launch.log'), encoding='utf-8').read())):
                    f_, st = now[is_log]
                    want = ''
                    for x in seen:
                        rec = logging.LogRecord('a.b', getattr(logging, x), '', 0, message, (), None)
                        rec.created = 0.0
                        want += logging.Formatter(f_, style=st).format(rec) + '\n'
                    if 'created' in f_:
                        got = re.sub(r'(?m)^[0-9]+\.[0-9]{7} ', '0.0000000 ', got)
                    eq(got, want, 'the main log' if is_log else 'the screen')
            finally:
                sys.stdout = keep_out
                end(d)
        h.case('format', (log, fmt, style, envs, early, level, message), f, 20)
    for i in range(h.n(120, 800)):
        one_place(i)
    for i in range(h.n(40, 300)):
        one_rival(i)
        one_given(i)
    for i in range(h.n(150, 1500)):
        one_format(i)
