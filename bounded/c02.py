from launch.actions import (GroupAction, ResetEnvironment, ResetLaunchConfigurations, SetEnvironmentVariable,
                            SetLaunchConfiguration, UnsetEnvironmentVariable, UnsetLaunchConfiguration)
from .common import *

RULE = ('random nested group programs (depth <= 3, all scoped/forwarding combinations, presets that are texts or look-ups, '
        'list or generator actions, executed up to twice) against a reference interpreter; non-trivial: distinct programs')


def val(v):
    return Lookup(v[1]) if isinstance(v, tuple) else v


def vref(v, c):
    return c.get(v[1], '<unset>') if isinstance(v, tuple) else v


def build(ops, log):
    out = []
    for o in ops:
        k = o[0]
        if k == 'set':
            out.append(SetLaunchConfiguration(o[1], val(o[2])))
        elif k == 'unset':
            out.append(UnsetLaunchConfiguration(o[1]))
        elif k == 'senv':
            out.append(SetEnvironmentVariable(o[1], val(o[2])))
        elif k == 'uenv':
            out.append(UnsetEnvironmentVariable(o[1]))
        elif k == 'rlc':
            out.append(ResetLaunchConfigurations({a: val(b) for a, b in o[1]}))
        elif k == 'check':
            out.append(Recorder([], o[1], lambda ctx, t=o[1]: log.append((t, dict(ctx.launch_configurations), env_now()))))
        elif k == 'group':
            sub = build(o[4], log)
            kw = {}
            if o[1] is not None:
                kw['scoped'] = o[1]
            if o[2] is not None:
                kw['forwarding'] = o[2]
            if o[3] is not None:
                kw['launch_configurations'] = {a: val(b) for a, b in o[3]}
            out.append(GroupAction((x for x in sub) if o[5] else sub, **kw))
    return out


def ref(ops, c, e, init, log):
    for o in ops:
        k = o[0]
        if k == 'set':
            c[o[1]] = vref(o[2], c)
        elif k == 'unset':
            c.pop(o[1], None)
        elif k == 'senv':
            e[o[1]] = vref(o[2], c)
        elif k == 'uenv':
            e.pop(o[1], None)
        elif k == 'rlc':
            n = {a: vref(b, c) for a, b in o[1]}
            c.clear()
            c.update(n)
        elif k == 'check':
            log.append((o[1], dict(c), dict(e)))
        elif k == 'group':
            scoped = True if o[1] is None else o[1]
            fwd = True if o[2] is None else o[2]
            sc, se = dict(c), dict(e)
            if scoped and not fwd:
                n = {a: vref(b, sc) for a, b in (o[3] or [])}
                c.clear()
                c.update(n)
                e.clear()
                e.update(init)
            else:
                for a, b in (o[3] or []):
                    c[a] = vref(b, c)
            ref(o[4], c, e, init, log)
            if scoped:
                c.clear()
                c.update(sc)
                e.clear()
                e.update(se)


def run(h):
    r = h.rng
    cnt = [0]

    def rv():
        return ('look', r.choice(NAMES[:4])) if r.random() < .35 else r.choice(TEXTS)

    def ops(depth, n=None):
        out = []
        for _ in range(n or r.randint(1, 4)):
            k = r.choice(['set', 'set', 'unset', 'senv', 'uenv', 'rlc', 'check', 'group', 'group'])
            if k == 'group' and depth:
                pres = None if r.random() < .3 else [(a, rv()) for a in r.sample(NAMES, r.randint(0, 3))]
                out.append(('group', r.choice([None, True, False, True]), r.choice([None, True, False, False]), pres,
                            ops(depth - 1), r.random() < .3))
            elif k == 'set':
                out.append((k, r.choice(NAMES[:4]), rv()))
            elif k == 'unset':
                out.append((k, r.choice(NAMES[:4])))
            elif k == 'senv':
                out.append((k, r.choice(ENVN), rv()))
            elif k == 'uenv':
                out.append((k, r.choice(ENVN)))
            elif k == 'rlc' and r.random() < .3:
                out.append((k, [(a, rv()) for a in r.sample(NAMES, r.randint(0, 2))]))
            cnt[0] += 1
            out.append(('check', cnt[0]))
        return out

    def go(prog, times, c0, e_init, e0):
        def f():
            fresh_env(e_init)
            ctx = LaunchContext()
            fresh_env(e0)
            ctx.launch_configurations.update(c0)
            got, want = [], []
            ents = build(prog, got)
            c, e = dict(c0), dict(e0)
            for _ in range(times):
                visit_tree(ents, ctx)
                ref(prog, c, e, e_init, want)
            eq(got, want, 'state seen by the actions')
            eq(dict(ctx.launch_configurations), c, 'configurations afterwards')
            eq(env_now(), e, 'environment afterwards')
        h.case('group', (times, c0, e_init, e0, prog), f)

    base = [('check', 0), ('set', 'a', 'in'), ('senv', 'PYVC_A', 'in'), ('check', 1)]
    for s in (None, True, False):
        for fw in (None, True, False):
            for p in (None, [], [('a', 'p')], [('a', ('look', 'b')), ('b', ('look', 'a'))]):
                for t in (1, 2):
                    go([('check', -1), ('group', s, fw, p, base, False), ('check', 2)], t, {'a': '1', 'b': '2'},
                       {'PYVC_B': 'i'}, {'PYVC_C': 'x', 'PYVC_B': 'y'})
    for _ in range(h.n(150)):
        go(ops(3), r.choice([1, 1, 2]), {n: r.choice(TEXTS) for n in r.sample(NAMES, r.randint(0, 4))},
           {n: r.choice(TEXTS) for n in r.sample(ENVN, r.randint(0, 3))},
           {n: r.choice(TEXTS) for n in r.sample(ENVN, r.randint(0, 3))})

    def parsed():
        # XML and YAML forms of the same group
        from io import StringIO
        from launch.frontend import Parser
        xml = ('<launch><let name="o" value="O"/><group scoped="{s}" forwarding="{f}"><keep name="k" value="$(var o)"/>'
               '<let name="a" value="1"/></group></launch>')
        for s in ('true', 'false'):
            for fw in ('true', 'false'):
                root, parser = Parser.load(StringIO(xml.format(s=s, f=fw)))
                ld = parser.parse_description(root)
                ctx = LaunchContext()
                seen = []

                def vt(es):
                    for e in es or ():
                        sub = e.visit(ctx)
                        seen.append((type(e).__name__, dict(ctx.launch_configurations)))
                        vt(sub)
                vt(ld.entities)
                inner = [c for n, c in seen if n == 'SetLaunchConfiguration' and c.get('a') == '1']
                want = {'k': 'O', 'a': '1'} if (s, fw) == ('true', 'false') else {'o': 'O', 'k': 'O', 'a': '1'}
                eq(inner[-1], want, 'inside %s %s' % (s, fw))
                eq(dict(ctx.launch_configurations), {'o': 'O'} if s == 'true' else want, 'after %s %s' % (s, fw))
    h.case('parsed', 'xml group', parsed)
