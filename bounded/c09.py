from launch.actions import DeclareLaunchArgument, SetLaunchConfiguration
from launch.substitutions import LaunchConfiguration
from .common import *

RULE = ('declarations with every combination of default (none, text, substitutions, look-ups), choices and given value, '
        'executed alone and in sequence; non-trivial: distinct combinations')


def run(h):
    r = h.rng

    def expand(default, cfg):
        if default is None:
            return None
        if isinstance(default, str):
            return default
        if isinstance(default, (list, tuple)):
            return ''.join(expand(x, cfg) for x in default)
        return cfg.get(default.name, '<unset>') if isinstance(default, Lookup) else default.text

    def one(decls, given):
        def f():
            ctx = LaunchContext()
            ctx.launch_configurations.update(given)
            cfg = dict(given)
            for name, default, choices, desc in decls:
                kw = {}
                if default is not None:
                    kw['default_value'] = default
                if choices is not None:
                    kw['choices'] = choices
                if desc is not None:
                    kw['description'] = desc
                if isinstance(default, str) and choices is not None and default not in choices:
                    raises(RuntimeError, lambda: DeclareLaunchArgument(name, **kw), 'default not in choices')
                    continue
                a = DeclareLaunchArgument(name, **kw)
                eq(a.name, name, 'name')
                eq(a.choices, choices, 'choices')
                eq(a.default_value is None, default is None, 'default')
                if desc is not None and choices is None:
                    eq(a.description, desc, 'description')
                if (desc is None and not a.description) or not a.description.startswith(desc or '') or any(repr(c) not in a.description for c in choices or ()):
                    raise AssertionError('description %r' % a.description)
                env = full_env()
                v = cfg.get(name, expand(default, cfg))
                if v is None:
                    raises(RuntimeError, lambda: a.visit(ctx), 'required argument')
                elif choices is not None and v not in choices:
                    raises(RuntimeError, lambda: a.visit(ctx), 'value not in choices')
                    if name in cfg:
                        eq(dict(ctx.launch_configurations), cfg, 'given value untouched')
                    ctx.launch_configurations.clear()
                    ctx.launch_configurations.update(cfg)
                else:
                    a.visit(ctx)
                    cfg[name] = v
                eq(dict(ctx.launch_configurations), cfg, 'configurations')
                eq(full_env(), env, 'environment')
        h.case('arguments', (decls, given), f)

    def none():
        for kw in ({}, {'default_value': 'x'}, {'default_value': [Lookup('a')]}, {'description': 'd'}):
            raises(RuntimeError, lambda: DeclareLaunchArgument('a', choices=[], **kw), 'no choice at all')
    h.case('none', None, none)

    names = ['a', 'b', 'name with space', '']
    texts = ['', 'x', 'y', 'true', ' x', 'xy']

    def default():
        k = r.randrange(6)
        if k < 2:
            return None
        if k == 2:
            return r.choice(texts)
        if k == 3:
            return r.choice((list, tuple))([r.choice(texts), r.choice(texts)])
        if k == 4:
            return Lookup(r.choice(names))
        return [TextSubstitution(text=r.choice(texts)), Lookup(r.choice(names))]
    for _ in range(h.n(600)):
        decls = [(r.choice(names), default(), r.choice([None, None, ['x', 'y'], [''], ['x', 'xy', 'true', '<unset>'], ('x',)]),
                  r.choice([None, '', 'text', 'text.'])) for _ in range(r.randint(1, 4))]
        one(decls, {n: r.choice(texts) for n in r.sample(names, r.randint(0, 2))})
