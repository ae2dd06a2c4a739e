"""Random launch descriptions with arguments, groups, conditions, includes, timers, handlers; and their reference."""
from launch import LaunchDescription, LaunchDescriptionSource
from launch.actions import (DeclareLaunchArgument, GroupAction, IncludeLaunchDescription, LogInfo,
                            RegisterEventHandler, ResetLaunchConfigurations, TimerAction)
from launch.conditions import IfCondition
from launch.event_handler import EventHandler
from launch.event_handlers import OnExecutionComplete, OnProcessExit
from launch.substitutions import LaunchConfiguration, TextSubstitution

ANAMES = ['a', 'b', 'c', 'd', 'e f', 'é']


class TableSource(LaunchDescriptionSource):
    """Loads from a table of files."""

    def __init__(self, files, location):
        super().__init__(location=location)
        self.files = files

    def _get_launch_description(self, location):
        return self.files[location]


def gen(r, depth=0, opaque=True, paths=None):
    out = []
    for _ in range(r.randint(0, 4)):
        k = r.random()
        cond = r.random() < .2
        if k < .38 or depth >= 4:
            out.append(('decl', r.choice(ANAMES), None if r.random() < .6 else r.choice(['', 'v', '1']), cond))
        elif k < .45:
            out.append(('log', None, None, cond))
        elif k < .5 and opaque:
            out.append(('reset', None, None, cond))
        elif k < .68:
            out.append(('group', gen(r, depth + 1, opaque, paths), r.choice(['scoped', 'plain', 'plain'] + ['cut'] * opaque), cond))
        elif k < .88:
            args = [(r.choice(ANAMES), r.random() < .25, r.choice(['', '0', 'x', 'v v'])) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
            out.append(('include', gen(r, depth + 1, opaque, paths), args, cond, r.choice(['given', 'file', 'late'] if opaque else ['given'])))
        elif opaque and k < .94:
            out.append(('timer', gen(r, depth + 1, opaque, paths), None, False))
        elif opaque:
            out.append(('on', gen(r, depth + 1, opaque, paths), r.choice(['handler', 'exit', 'done', 'single']), False))
    return out


def build(spec, table):
    """Real entities; table maps id(entity) -> spec for declarations and includes."""
    out = []
    for s in spec:
        kw = {'condition': IfCondition('true')} if s[3] else {}
        k = s[0]
        if k == 'decl':
            e = DeclareLaunchArgument(s[1], default_value=s[2], **kw)
        elif k == 'log':
            e = LogInfo(msg='x', **kw)
        elif k == 'reset':
            e = ResetLaunchConfigurations(**kw)
        elif k == 'group':
            g = {'plain': dict(scoped=False), 'scoped': {}, 'cut': dict(forwarding=False)}[s[2]]
            e = GroupAction(build(s[1], table), **g, **kw)
        elif k == 'include':
            args = [((LaunchConfiguration(n) if late else [TextSubstitution(text=n)] if n == 'd' else n), v) for n, late, v in s[2]]
            inner = LaunchDescription(build(s[1], table))
            if len(s) < 5 or s[4] == 'given':
                src = LaunchDescriptionSource(inner, 'some/where.py')
            else:
                src = TableSource({'dir/file': inner}, [TextSubstitution(text='dir/'), TextSubstitution(text='file')]
                                  if s[4] == 'file' else [TextSubstitution(text='dir/'), LaunchConfiguration('file')])
            e = IncludeLaunchDescription(src,
                                         launch_arguments=args, **kw)
        elif k == 'timer':
            e = TimerAction(period=1.0, actions=build(s[1], table))
        else:
            inner = build(s[1], table)
            if s[2] == 'single':
                e = RegisterEventHandler(EventHandler(matcher=lambda ev: True, entities=GroupAction(inner, scoped=False)))
            elif s[2] == 'exit':
                e = RegisterEventHandler(OnProcessExit(on_exit=inner))
            elif s[2] == 'done':
                e = RegisterEventHandler(OnExecutionComplete(on_completion=inner))
            else:
                e = RegisterEventHandler(EventHandler(matcher=lambda ev: True, entities=inner))
        table[id(e)] = (e, s)
        out.append(e)
    return out


def discover(spec, cond=False, chain=(), found=None):
    """Reference: [(declaration spec, conditional?, chain of include specs)]."""
    found = [] if found is None else found
    for s in spec:
        k = s[0]
        if k == 'decl':
            if all(f[0][1] != s[1] for f in found):
                found.append((s, cond or s[3], chain))
        elif k == 'reset':
            break
        elif k == 'group' and s[2] == 'cut' or k == 'include' and s[4:] == ('late',):
            continue
        elif k in ('group', 'include', 'timer', 'on'):
            inner = cond or s[3] or k in ('timer', 'on')
            discover(s[1], inner, chain + ((s,) if k == 'include' else ()), found)
    return found
