"""C27, bounded: real actions in a real launch; what is handed to the operating system, and what a program sees of it."""
import io
import json
import re
import shlex
import sys
from xml.sax.saxutils import quoteattr

import launch.actions.execute_local as el
import launch_xml
import launch_yaml
from launch.actions import ExecuteLocal, ExecuteProcess, SetEnvironmentVariable, SetLaunchConfiguration
from launch.descriptions import Executable


from .common import *

RULE = ('random executables (parts of the command, prefix, filter, name, directory, variables) in random configurations and '
        'environments, as objects and as XML and YAML; non-trivial: distinct descriptions')


def start_of(entities, conf):
    """Run the entities; the processes that would have been started."""
    started = []

    async def start(protocol_class, cmd, cwd=None, env=None, shell=False, emulate_tty=False, stderr_to_stdout=False):
        started.append(dict(cmd=list(cmd), cwd=cwd, env=None if env is None else dict(env), shell=shell, tty=emulate_tty))
        raise OSError('not today')
    keep = el.async_execute_process
    el.async_execute_process = start
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        ls = LaunchService(noninteractive=True)
        ls.context.launch_configurations.update(conf)
        ls.include_launch_description(LaunchDescription(list(entities)))
        eq(loop.run_until_complete(asyncio.wait_for(ls.run_async(), 100)), 0, 'return code')
    finally:
        el.async_execute_process = keep
        loop.close()
        asyncio.set_event_loop(None)
    return started


def run(h):
    r = h.rng
    words = ['prog', '/opt/x/prog', 'a b', '', '-x', '--k=v', "it's", '"q"', '$HOME', '*', 'é', 'prog.py', ' ']
    prefixes = ['', 'pre', 'pre --x', "a 'b c' d", '  ', 'gdb -ex run --args']
    filters = ['', 'prog', 'pro', 'rog', '.*g$', 'nomatch', 'x|prog', 'prog$']

    def part(r):
        """(substitutions, text as a function of the configurations)"""
        c = r.random()
        if c < .5:
            w = r.choice(words)
            return w, lambda conf: w
        if c < .7:
            n = r.choice('ab')
            return Lookup(n), lambda conf: conf.get(n, '<unset>')
        n, w = r.choice('ab'), r.choice(words)
        return [TextSubstitution(text=w), Lookup(n)], lambda conf: w + conf.get(n, '<unset>')

    def variables(r):
        if r.random() < .4:
            return None, None
        ps = [(('PYVC_A', lambda c: 'PYVC_A') if r.random() < .4 else ([TextSubstitution(text='PYVC_'), Lookup('v')] if r.random() < .5 else 'PYVC_B', None),
               part(r)) for _ in range(r.randint(0, 3))]
        d, spec = {}, []
        for (k, _), (v, f) in ps:
            k = tuple(k) if isinstance(k, list) else k
            name = (lambda c: 'PYVC_' + c.get('v', '<unset>')) if isinstance(k, tuple) else (lambda c, k=k: k)
            if k in d:
                continue
            d[k] = v
            spec.append((name, f))
        return d, spec

    def one(i):
        conf = {k: r.choice(words) for k in 'ab' if r.random() < .7}
        conf['v'] = r.choice('ABC')
        if r.random() < .5:
            conf['launch-prefix'] = r.choice(prefixes)
        if r.random() < .5:
            conf['launch-prefix-filter'] = r.choice(filters)
        outer = {n: r.choice(['', 'o', 'p q']) for n in ENVN if r.random() < .4}
        late = dict(conf, **{k: r.choice(words) for k in 'ab' if r.random() < .3})
        cmd = [part(r) for _ in range(r.randint(1, 4))]
        extra = [part(r) for _ in range(r.randint(0, 2))] if r.random() < .3 else None
        own = r.choice(prefixes) if r.random() < .3 else None
        name = part(r) if r.random() < .4 else None
        cwd = part(r) if r.random() < .4 else None
        env, espec = variables(r)
        more, mspec = variables(r)
        shell = r.random() < .2
        key = (conf, outer, late, len(cmd), own, env is None, more is None, name is None, cwd is None, extra is None, i)

        def f():
            fresh_env(outer)
            k = {}
            for n, v in (('prefix', own), ('name', name and name[0]), ('cwd', cwd and cwd[0]), ('env', env), ('additional_env', more)):
                if v is not None:
                    k[n] = v
            args = [c for c, _ in cmd]
            if extra is not None:
                a = ExecuteLocal(process_description=Executable(cmd=iter(args), arguments=iter([c for c, _ in extra]), **k), shell=shell)
                d = a.process_description
            else:
                a = ExecuteProcess(cmd=args, shell=shell, **k)
                d = a.process_description
            sets = [SetLaunchConfiguration(n, v) for n, v in late.items() if conf.get(n) != v]
            sets.append(SetEnvironmentVariable('PYVC_D', 'late'))
            got = start_of([*sets, a, SetEnvironmentVariable('PYVC_D', 'later')], conf)
            ws = [g(late) for _, g in cmd + (extra or [])]
            pre = own
            if own is None:
                ok = re.match(late.get('launch-prefix-filter', ''), os.path.basename(ws[0]))
                pre = late.get('launch-prefix', '') if ok else ''
            ws = shlex.split(pre) + ws
            base = dict(full_env(), PYVC_D='late') if env is None else {}
            for n, g in (espec or []) + (mspec or []):
                base[n(late)] = g(late)
            eq(len(got), 1, 'processes')
            g = got[0]
            eq(g['cmd'], ws, 'command line')
            eq(g['cwd'], None if cwd is None else cwd[1](late), 'directory')
            eq(g['env'], base, 'environment')
            eq(g['shell'], shell, 'shell')
            shown = os.path.basename(ws[0]) if name is None else name[1](late)
            check(re.fullmatch(re.escape(shown) + r'-\d+', d.final_name), 'name %r for %r' % (d.final_name, shown))
            check(d.final_name not in names, 'name used before')
            names.add(d.final_name)
            eq((d.final_cmd, d.final_cwd, d.final_env), (g['cmd'], g['cwd'], g['env']), 'details')
            if extra is None:
                eq((a.cmd, a.env, a.name), (g['cmd'], g['env'], d.final_name), 'details of the action')
            eq(os.environ['PYVC_D'], 'later', 'environment of the launch')
        h.case('objects', key, f)
    names = set()

    def check(ok, what):
        eq(bool(ok), True, what)
    for i in range(h.n(400)):
        one(i)

    # ---- as launch files
    TEXTS = ['a', 'a b', "'a b'", '-x="p q"', 'c"d e"f', '--opt=', '""', "''", '-a  -b']
    SPACES = [' ', '  ', '', '\n', '\t ']

    def text(i):
        n = r.randint(1, 4)
        t, flat, last = r.choice(SPACES), '', True
        flat = t
        for _ in range(n):
            # two texts in a row are separated
            if last and r.random() < .6 or not last and r.random() < .5:
                w = r.choice(TEXTS)
                s = r.choice(SPACES) if not last else ''
                t, flat, last = t + s + w, flat + s + w, False
                e = r.choice(SPACES)
                t, flat = t + e, flat + e
                if not e:
                    last = None
            else:
                v = r.choice('ab')
                e = r.choice(SPACES)
                t, flat, last = t + '$(var %s)' % v + e, flat + {'a': '\ue000', 'b': '\ue001'}[v] + e, True
            if last is None:
                v = r.choice('ab')
                e = r.choice(SPACES)
                t, flat, last = t + '$(var %s)' % v + e, flat + {'a': '\ue000', 'b': '\ue001'}[v] + e, True
        conf = {'a': r.choice(words), 'b': r.choice(words)}
        ws = [w.replace('\ue000', conf['a']).replace('\ue001', conf['b']) for w in shlex.split(flat)]
        cwd, pre, name = [r.choice([None, '', x, x]) for x in ('/d/$(var a)', 'pre -x', 'n$(var a)')]
        if r.random() < .5:
            conf['launch-prefix'] = 'conf -p'
        env = [(n, r.choice(['x', '$(var b)', 'a b', '1'])) for n in r.sample(ENVN, r.randint(0, 3))]
        val = lambda x: x.replace('$(var a)', conf['a']).replace('$(var b)', conf['b'])   # noqa: E731
        shell = r.choice([None, 'true', 'false'])
        attrs = [(k, v) for k, v in (('cmd', t), ('cwd', cwd), ('launch-prefix', pre), ('name', name), ('shell', shell)) if v is not None]

        def f(form):
            fresh_env({})
            if form == 'xml':
                body = ''.join('<env name=%s value=%s/>' % (quoteattr(n), quoteattr(v)) for n, v in env)
                doc = '<launch><executable %s>%s</executable></launch>' % (' '.join('%s=%s' % (k, quoteattr(v)) for k, v in attrs), body)
            else:
                e = dict((k, v == 'true' if k == 'shell' else v) for k, v in attrs)
                if env:
                    e['env'] = [{'name': n, 'value': v} for n, v in env]
                doc = json.dumps({'launch': [{'executable': e}]})
            mod = launch_xml if form == 'xml' else launch_yaml
            root, parser = mod.Parser.load(io.StringIO(doc))
            ld = parser.parse_description(root)
            [g] = start_of(ld.entities, conf)
            eq(g['cmd'], shlex.split(conf.get('launch-prefix', '') if pre is None else pre) + ws, 'command line of %r' % t)
            eq(g['cwd'], None if cwd is None else val(cwd), 'directory')
            eq(g['env'], dict(full_env(), **{n: val(v) for n, v in env}), 'environment')
            eq(g['shell'], shell == 'true', 'shell')
        if ws:
            for form in ('xml', 'yaml'):
                h.case(form, (t, conf, cwd, pre, env, shell), lambda form=form: f(form))
    for i in range(h.n(150)):
        text(i)

    # ---- a real program
    d = os.getcwd()
    script = os.path.join(d, 'show.py')
    with open(script, 'w') as s:
        s.write('import json, os, sys\njson.dump([sys.argv[2:], {k: v for k, v in os.environ.items() if k.startswith("PYVC_") and k != "PYVC_REPO"}, os.getcwd()], '
                'open(sys.argv[1], "w"))\n')
    sub = os.path.join(d, 'sub dir')
    os.makedirs(sub, exist_ok=True)

    def real(argv, env, more, cwd, outer, prefix):
        fresh_env(outer)
        out = os.path.join(d, 'shown')
        a = ExecuteProcess(cmd=[sys.executable, script, out, *argv], env=env, additional_env=more, cwd=cwd, prefix=prefix)
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            ls = LaunchService(noninteractive=True)
            ls.include_launch_description(LaunchDescription([a]))
            eq(loop.run_until_complete(asyncio.wait_for(ls.run_async(), 60)), 0, 'return code')
        finally:
            loop.close()
            asyncio.set_event_loop(None)
        got = json.load(open(out))
        os.unlink(out)
        want = {k: v for k, v in dict(outer if env is None else env, **(more or {})).items()}
        if prefix:
            want['PYVC_P'] = 'p q'
        eq(got, [argv, {k: v for k, v in want.items()}, os.path.realpath(cwd or d)], 'what the program sees')
    for argv, env, more, cwd, outer, prefix in [
            (['a b', '', '*', "it's", '$HOME'], None, None, None, {'PYVC_A': 'o'}, None),
            ([], {'PYVC_A': 'x y'}, {'PYVC_B': ''}, sub, {'PYVC_C': 'hidden'}, "/usr/bin/env 'PYVC_P=p q'"),
            (['-x'], None, {'PYVC_A': 'new'}, sub, {'PYVC_A': 'old', 'PYVC_B': 'b'}, None)]:
        h.case('program', (argv, env, more, cwd and 'sub', outer, prefix), lambda x=(argv, env, more, cwd, outer, prefix): real(*x))
