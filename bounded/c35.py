import itertools

from launch import Action, Condition, EventHandler, LaunchDescriptionEntity
from launch.actions import (EmitEvent, ExecuteProcess, GroupAction, LogInfo, OpaqueFunction, RegisterEventHandler, Shutdown, TimerAction)
from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart, OnShutdown
from launch.launch_introspector import LaunchIntrospector
from launch import substitutions as X
from launch.conditions import IfCondition
from launch_testing.event_handlers import StdoutReadyListener
from .common import *

RULE = ('trees of actions and event handlers up to three deep, the lines of their description compared with the tree, described once and twice '
        'and then run; non-trivial: nested handlers, several entities per handler, generators of entities')


class Never(launch.Substitution):
    """Describes itself and must not be performed."""

    def __init__(self, name):
        super().__init__()
        self.name = name

    def describe(self):
        return '<%s>' % self.name

    def perform(self, context):
        raise AssertionError('performed')


class Doer(Action):
    def __init__(self, name):
        super().__init__()
        self.name, self.done = name, 0

    def execute(self, context):
        self.done += 1

    def __str__(self):
        return self.name


def flat(text):
    """The lines without the branches: (depth, text)."""
    out = []
    for line in text.split('\n')[1:]:
        plain = line
        for c in '│├└─':
            plain = plain.replace(c, ' ')
        body = plain.lstrip(' ')
        at = len(plain) - len(body)
        if at < 4 or at % 4 or line[at - 4:at] not in ('├── ', '└── '):
            raise AssertionError('no branch: %r' % line)
        out.append((at // 4, body))
    return out


def run(h):
    def want(tree, depth=1):
        out = []
        for k, sub in tree:
            if k == 'do':
                out.append((depth, "Action('%s')" % sub))
            elif k == 'log':
                out.append((depth, "LogInfo('%s')" % sub))
            else:
                out.append((depth, 'RegisterEventHandler'))
                out.append((depth + 1, {'exit': 'OnProcessExit', 'start': 'OnProcessStart', 'any': 'EventHandler', 'once': 'EventHandler'}[k]))
                out.extend(want(sub, depth + 2))
        return out

    def build(tree, form, done):
        out = []
        for k, sub in tree:
            if k == 'do':
                out.append(Doer(sub))
                done.append(out[-1])
            elif k == 'log':
                out.append(LogInfo(msg=sub))
            else:
                es = build(sub, form, done)
                es = {'list': list, 'tuple': tuple, 'one': lambda x: x[0] if len(x) == 1 else x, 'gen': lambda x: (e for e in x)}[form](es)
                if k == 'exit':
                    hd = OnProcessExit(on_exit=es)
                elif k == 'start':
                    hd = OnProcessStart(on_start=es)
                else:
                    hd = EventHandler(matcher=lambda e: getattr(e, 'go', False), entities=es, handle_once=k == 'once')
                out.append(RegisterEventHandler(hd))
        return out
    leaves = [('do', 'a'), ('log', 'b')]
    mids = [(k, list(sub)) for k in ('exit', 'any', 'once', 'start') for sub in ([], [leaves[0]], leaves)]
    deep = [('any', [('exit', [leaves[1]]), leaves[0]]), ('exit', [leaves[0], ('once', leaves), leaves[1]]), ('any', [('any', [('any', [leaves[0]])])])]
    trees = [[]] + [[x] for x in leaves + mids + deep] + [[x, y] for x, y in itertools.product(leaves + mids[:6] + deep, repeat=2)]
    trees += [[x, leaves[0], y, leaves[1]] for x in deep for y in mids]

    def tree(t, form):
        def f():
            done = []
            ld = LaunchDescription(build(t, form, done))
            i = LaunchIntrospector()
            r = i.format_launch_description(ld)
            if r.split('\n')[0] != str(ld):
                raise AssertionError('the description comes first: %r' % r)
            got = flat(r) if t else r.split('\n')[1:]
            if not t:
                if got not in ([], ['']):
                    raise AssertionError(repr(got))
                return
            w = want(t)
            if [d for d, _ in got] != [d for d, _ in w] or not all(b.startswith(x) for (_, b), (_, x) in zip(got, w)):
                raise AssertionError('%r instead of %r' % (got, w))
            eq(i.format_launch_description(ld), r, 'described again')
            eq([d.done for d in done], [0] * len(done), 'executions')

            class Go(launch.Event):
                go = True
            top = [x for x in t if x[0] == 'do']
            in_any = sum(sum(1 for y in x[1] if y[0] == 'do') for x in t if x[0] in ('any', 'once'))
            rc, ls = run_ld([ld, EmitEvent(event=Go())], noninteractive=True)
            eq(rc, 0, 'return code')
            eq(sum(d.done for d in done), len(top) + in_any, 'executions when run')
        h.case('tree', (repr(t), form), f)
    for n, t in enumerate(trees):
        tree(t, ('list', 'tuple', 'one', 'gen')[n % 4])
    for t in [[m] for m in mids + deep]:
        for form in ('list', 'tuple', 'one', 'gen'):
            tree(t, form)

    def line(name, e, expected):
        def f():
            r = LaunchIntrospector().format_launch_description(LaunchDescription([e()]))
            eq(r.split('\n')[1], '└── ' + expected, 'line')
        h.case('line', name, f)
    N = Never
    line('log', lambda: LogInfo(msg=['a ', N('x'), '']), "LogInfo('a ' + <x> + '')")
    line('shutdown', lambda: Shutdown(reason='r'), "EmitEvent(event='launch.events.Shutdown')")
    line('cmd', lambda: ExecuteProcess(cmd=['ls', ['-', N('x')], N('y')]), "ExecuteProcess(cmd=['ls', '-' + <x>, <y>], cwd=None, env=None, shell=False)")
    line('no variables', lambda: ExecuteProcess(cmd=[N('c')], env={}), 'ExecuteProcess(cmd=[<c>], cwd=None, env={}, shell=False)')
    line('twice', lambda: LogInfo(msg=['a', N('x'), 'a', N('x')]), "LogInfo('a' + <x> + 'a' + <x>)")
    line('all', lambda: ExecuteProcess(cmd=[N('c')], cwd=['/', N('d')], env={'A': N('v'), N('k'): ['b', 'c']}, shell=True),
         "ExecuteProcess(cmd=[<c>], cwd=''/' + <d>', env={'A': <v>, <k>: 'b' + 'c'}, shell=True)")

    def waits(name, mk, yes, no):
        def f():
            r = LaunchIntrospector().format_launch_description(LaunchDescription([RegisterEventHandler(mk())])).split('\n')[2]
            if not all(w in r for w in yes) or any(w in r for w in no):
                raise AssertionError(r)
        h.case('waits', name, f)
    proc = ExecuteProcess(cmd=['x'])
    for once in (False, True):
        ends = ['handle_once=%s)' % once]
        waits(('exit', once), lambda: OnProcessExit(on_exit=[], handle_once=once), ends + ['OnProcessExit(', 'ProcessExited'], ['(event.action)'])
        waits(('exit of', once), lambda: OnProcessExit(target_action=proc, on_exit=[], handle_once=once),
              ends + ['OnProcessExit(', 'ProcessExited', '(event.action)'], [])
        waits(('start of', once), lambda: OnProcessStart(target_action=proc, on_start=[], handle_once=once),
              ends + ['OnProcessStart(', 'ProcessStarted', 'ExecuteProcess(event.action)'], [])
        waits(('exit of some', once), lambda: OnProcessExit(target_action=lambda a: True, on_exit=[], handle_once=once),
              ends + ['OnProcessExit(', 'ProcessExited', '(event.action)'], [])
        waits(('shutdown', once), lambda: OnShutdown(on_shutdown=[], handle_once=once), ['OnShutdown(', 'Shutdown'] + ends, [])

    def executed(name, kw, after):
        def f():
            a = ExecuteProcess(cmd=['true', [X.TextSubstitution(text='x '), 'y']], **kw)
            ld = LaunchDescription([a])
            rc, ls = run_ld([ld], noninteractive=True)
            eq(rc, 0, 'return code')
            r = LaunchIntrospector().format_launch_description(ld)
            first, rest = "└── ExecuteProcess(cmd=['true', 'x y'], cwd=", ', shell=False)'
            got = r.split('\n', 1)[1]
            if not (got.startswith(first) and got.endswith(rest)):
                raise AssertionError(r)
            if after is not None:
                eq(got[len(first):-len(rest)], after, 'directory and environment')
            eq(LaunchIntrospector().format_launch_description(ld), r, 'described again')
        h.case('executed', name, f)
    executed('nothing', {}, None)
    executed('variables', {'env': {'A': ['b', 'c'], 'D': ''}}, "None, env={'A': 'bc', 'D': ''}")
    executed('added', {'additional_env': {'A': 'b'}}, None)
    executed('directory', {'cwd': ['/', 'tmp'], 'env': {}}, "''/tmp'', env={}")

    class Plain(launch.LaunchDescriptionEntity):
        def visit(self, context):
            raise AssertionError('visited')

    def plain():
        e = Plain()
        eq((list(e.describe_sub_entities()), list(e.describe_conditional_sub_entities())), ([], []), 'sub entities')
    h.case('plain', 'entity', plain)

    subs = [('text', lambda: X.TextSubstitution(text='t'), "'t'"), ('env', lambda: X.EnvironmentVariable(['A', N('x')]), "EnvVar('A' + <x>)"),
            ('config', lambda: X.LaunchConfiguration([N('x'), 'b'], default='d'), "LaunchConfig(<x> + 'b')"),
            ('find', lambda: X.FindExecutable(name='ls'), "FindExec('ls')"), ('cmd', lambda: X.Command(['a', N('x')]), "Command('a' + <x>)"),
            ('file', lambda: X.FileContent(['a', N('x')]), "FileContent('a', <x>)"), ('anon', lambda: X.AnonName('n'), "AnonName('n')"),
            ('local', lambda: X.LocalSubstitution('event.name'), "LocalVar('event.name')"),
            ('local2', lambda: X.LocalSubstitution('event.name', 'the name'), "LocalVar('the name')"),
            ('join', lambda: X.PathJoinSubstitution(['a', N('x')]), "PathJoin(''a' + <x>')"),
            ('expr', lambda: X.PythonExpression(['1+', N('x')], ['math', N('m')]), "PythonExpr('1+' + <x>, ['math', <m>])"),
            ('file name', lambda: X.ThisLaunchFile(), 'ThisLaunchFile()'), ('dir', lambda: X.ThisLaunchFileDir(), 'ThisLaunchFileDir()')]

    def sub(name, mk, expected):
        def f():
            s = mk()
            eq(s.describe(), expected, 'description')
            eq(s.describe(), expected, 'description')
        h.case('substitution', name, f)
    for x in subs:
        sub(*x)

    def kind(mk):
        def f():
            s = mk()
            if not s.describe().startswith(type(s).__name__ + '('):
                raise AssertionError(s.describe())
        return f
    for mk in (lambda: X.NotSubstitution('a'), lambda: X.AndSubstitution('a', 'b'), lambda: X.OrSubstitution('a', 'b'), lambda: X.AnySubstitution('a'),
               lambda: X.AllSubstitution('a', 'b'), lambda: X.EqualsSubstitution('a', 'b'), lambda: X.NotEqualsSubstitution('a', 'b'),
               lambda: X.IfElseSubstitution('a', 'b', 'c')):
        h.case('kind', type(mk()).__name__, kind(mk))

    def ready(form):
        def f():
            d = [Doer('a'), Doer('b')]
            lst = StdoutReadyListener(ready_txt='x', actions={'list': list, 'gen': lambda x: (e for e in x)}[form](d))
            for _ in range(2):
                eq(list(lst.describe()[1]), d, 'entities')
        h.case('ready', form, f)
    ready('list')

    def conditional(cond, n):
        def f():
            class C(Condition):
                def evaluate(self, context):
                    raise AssertionError('evaluated')
            d = [Doer(str(i)) for i in range(n)]
            a = GroupAction(d, condition=C() if cond else None, scoped=False)
            always, maybe = list(a.describe_sub_entities()), [(t, list(x)) for t, x in a.describe_conditional_sub_entities()]
            eq((always, [x for _, x in maybe]), ([], [d]) if cond else (d, []), 'sub entities')
        h.case('conditional', (cond, n), f)
    for n in (0, 1, 3):
        conditional(True, n)
        conditional(False, n)
