import os

from launch import LaunchDescriptionSource
from launch.actions import DeclareLaunchArgument, IncludeLaunchDescription
from .common import *
from .trees import ANAMES, TableSource, build, discover, gen

RULE = ('random included descriptions with nested includes and arguments, names given as text or only known at run time, '
        'executed against a reference; non-trivial: distinct (description, arguments)')


def run(h):
    r = h.rng

    def one(spec, args, loc, how):
        def f():
            ctx = LaunchContext()
            for n in ANAMES:
                ctx.launch_configurations[n] = n
            table = {}
            inner = LaunchDescription(build(spec, table))
            ctx.launch_configurations['here'] = loc
            src = [LaunchDescriptionSource(inner, loc), TableSource({loc: inner}, loc),
                   TableSource({loc: inner}, [Lookup('here')])][how]
            inc = IncludeLaunchDescription(src, launch_arguments=[
                (Lookup(n) if late else n, Lookup(v) if v in ANAMES else v) for n, late, v in args])
            mine = [n for n, _, _ in args]
            bad = []
            for s, c, chain in discover(spec):
                if c or s[2] is not None or s[1] in mine:
                    continue
                if any(late for i in chain for _, late, _ in i[2]):
                    continue
                if any(n == s[1] for i in chain for n, _, _ in i[2]):
                    continue
                bad.append(s[1])
            before = dict(ctx.launch_configurations)
            if bad:
                e = raises(RuntimeError, lambda: inc.visit(ctx), 'missing %s' % bad)
                if not any(("'%s'" % b) in str(e) for b in bad):
                    raise AssertionError('the error does not name a missing argument %s: %s' % (bad, e))
                eq(dict(ctx.launch_configurations), before, 'nothing is set')
                return
            out = inc.visit(ctx)
            eq(ctx.locals.current_launch_file_path, os.path.abspath(loc), 'current file')
            eq(ctx.locals.current_launch_file_directory,
               os.path.dirname(os.path.abspath(loc)) if os.path.exists(loc) else loc, 'current directory')
            if out[-1] is not inner or len(out) < 1:
                raise AssertionError('the included description comes last')
            want = dict(before)
            for n, late, v in args:
                want[want.get(n, '<unset>') if late else n] = want.get(v, '<unset>') if v in ANAMES else v
            visit_tree(out[:-1], ctx)
            eq(dict(ctx.launch_configurations), want, 'configurations before the included description is visited')
        h.case('include', (spec, args, loc, how), f)

    def optional(default, kw):
        def f():
            ctx = LaunchContext()
            inner = LaunchDescription([DeclareLaunchArgument('a', default_value=default, **kw)])
            out = IncludeLaunchDescription(LaunchDescriptionSource(inner)).visit(ctx)
            visit_tree(out, ctx)
            eq(ctx.launch_configurations['a'], '', 'the default')
        h.case('optional', (repr(default), kw), f)
    for default in ('', [], [''], (), ['', ''], [TextSubstitution(text='')]):
        for kw in ({}, {'description': 'd'}):
            optional(default, kw)

    def rargs(k):
        return [(r.choice(ANAMES), r.random() < .3, r.choice(['', '1', 'x y', 'a', 'b'])) for _ in range(k)]
    os.makedirs('rel', exist_ok=True)
    for p in ('rel/f.xml', 'here.py'):
        open(p, 'w').close()
    full = os.path.abspath('rel/f.xml')
    for _ in range(h.n(500)):
        spec = gen(r)
        if r.random() < .6:      # supply most required arguments so that success is common
            need = [s[1] for s, c, ch in discover(spec) if not c and s[2] is None]
            r.shuffle(need)
            a = [(n, r.random() < .2, r.choice(TEXTS)) for n in need[:len(need) - (r.random() < .25)]] + rargs(r.choice([0, 0, 1, 2]))
        else:
            a = rargs(r.choice([0, 1, 2, 4]))
        one(spec, a, r.choice(['<script>', 'rel/f.xml', 'here.py', full]), r.randint(0, 2))
