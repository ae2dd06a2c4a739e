"""C35: the description of a launch description lists everything in it, and describing does nothing else."""
from .common import *
import launch
import launch.actions
import launch.conditions
import launch.event_handlers
import launch.launch_introspector as LI
import launch.substitutions
from launch import Action, LaunchContext, LaunchDescription, LaunchDescriptionEntity
from launch.event_handler import BaseEventHandler, EventHandler
from launch.event_handlers.on_action_event_base import OnActionEventBase

I = 'launch.launch_introspector:'     # noqa: E741
S = 'launch.substitutions.'


def text(v):
    """The term of a text, whether symbolic or not."""
    return StrK.unwrap(v)


def cat_(*parts):
    ts = [text(p) for p in parts]
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def same_text(name, got, *parts):
    prove(name, text(got) == cat_(*parts), repr(got))


class Part(launch.Substitution):
    """A part: describes itself as an arbitrary text and must not be performed."""

    def describe(self):
        if not hasattr(self, 'says'):
            self.says = fresh_str('described')
        return self.says

    def perform(self, context):
        fail('describing performs nothing')


def joined(parts, sep=' + '):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        out.append(p.describe())
    return out or ['']


def some_parts(n=3, least=0):
    return [new(Part) for _ in range(least + choose(n + 1 - least))]


class Doer(Action):
    def visit(self, context):
        fail('describing executes nothing')

    execute = visit

    def __str__(self):
        return 'doer'

    __repr__ = __str__


class Other(LaunchDescriptionEntity):
    def visit(self, context):
        fail('describing executes nothing')

    def __str__(self):
        return 'other'

    __repr__ = __str__


def lines_are(name, got, want):
    got = list(rt.to_vlist(got).items)
    prove(name + ': as many lines', len(got) == len(want), '%r %r' % (got, want))
    for i, (g, w) in enumerate(zip(got, want)):
        same_text(name + ': each line', g, *w)


@unit('C35', [I + 'format_substitutions'], assumes=('up to three substitutions stand for any number',))
def substitutions():
    parts = some_parts()
    same_text('the descriptions of the parts, in order', do(LI.format_substitutions, parts), *joined(parts))
    t = fresh_str('text')
    same_text('a text in quotes', do(LI.format_substitutions, t), "'", t, "'")
    p = new(Part)
    same_text('a text and a substitution', do(LI.format_substitutions, (t, p)), "'", t, "' + ", p.describe())


@unit('C35', [I + 'format_action', 'launch.actions.log_info:LogInfo.msg', 'launch.actions.emit_event:EmitEvent.event',
              'launch.actions.execute_process:ExecuteProcess.cmd', 'launch.actions.execute_process:ExecuteProcess.cwd',
              'launch.actions.execute_process:ExecuteProcess.env', 'launch.actions.execute_process:ExecuteProcess.shell'],
      assumes=('up to two arguments, variables and parts of each stand for any number',), budget=300)
def action():
    what = choose(4)
    if what == 0:
        parts = some_parts()
        a = new(launch.actions.LogInfo, msg=parts)
        want = ['LogInfo(', *joined(parts), ')']
    elif what == 1:
        class Named(launch.Event):
            name = fresh_str('name')
        e = new(Named)
        a = new(launch.actions.EmitEvent, event=e)
        want = ["EmitEvent(event='", e.name, "')"]
    elif what == 2:
        cmd = [some_parts(2, 1) for _ in range(1 + choose(2))]
        cwd = some_parts(2, 1) if choose(2) else None
        env = {(new(Part),): some_parts(2, 1) for _ in range(choose(3))} if choose(2) else None
        shell = bool(choose(2))
        a = new(launch.actions.ExecuteProcess, cmd=cmd, cwd=cwd, env=env, shell=shell)
        want = ['ExecuteProcess(cmd=[']
        for i, c in enumerate(cmd):
            want += [', '] * bool(i) + joined(c)
        want += ['], cwd='] + (['None'] if cwd is None else ["'", *joined(cwd), "'"]) + [', env=']
        if env is None:
            want += ['None']
        else:
            want += ['{']
            for i, (k, v) in enumerate(env.items()):
                want += [', '] * bool(i) + joined(k) + [': '] + joined(v)
            want += ['}']
        want += [', shell=%s)' % shell]
    else:
        a = new(Doer)
        want = ["Action('doer')"]
    before = dict(vars(a))
    for _ in range(1 + choose(2)):
        lines_are('the description of the action', do(LI.format_action, a), [want])
    prove('the action is left as it was', vars(a) == before)


@unit('C35', [I + 'format_action', 'launch.actions.execute_process:ExecuteProcess.cmd', 'launch.actions.execute_process:ExecuteProcess.cwd',
              'launch.actions.execute_process:ExecuteProcess.env', 'launch.descriptions.executable:Executable.prepare',
              'launch.descriptions.executable:Executable.final_cmd', 'launch.descriptions.executable:Executable.final_cwd',
              'launch.descriptions.executable:Executable.final_env'],
      assumes=('two arguments and up to two variables stand for any number',), budget=200)
def executed():
    """Once it was executed, a process is described by what it was executed with."""
    class Given(launch.Substitution):
        def __init__(self, name):
            self.value = fresh_str(name)

        def perform(self, context):
            return self.value

        def describe(self):
            return '<given>'
    args = [new(Given, 'arg') for _ in range(2)]
    args[0].value = 'prog'
    cwd = new(Given, 'cwd') if choose(2) else None
    env = [(k, new(Given, k)) for k in ('A', 'B')[:choose(3)]]
    a = new(launch.actions.ExecuteProcess, cmd=[[x] for x in args], cwd=None if cwd is None else [cwd],
            env={k: [v] for k, v in env} if env or choose(2) else {})
    ctx = new_context()
    do(a.process_description.prepare, ctx, a)
    want = ["ExecuteProcess(cmd=['", args[0].value, "', '", args[1].value, "'], cwd="]
    want += ['None'] if cwd is None else ["''", cwd.value, "''"]
    want += [', env={']
    for i, (k, v) in enumerate(env):
        want += [', '] * bool(i) + ["'%s': '" % k, v.value, "'"]
    want += ['}, shell=False)']
    k, r = outcome(do, LI.format_action, a)
    prove('a process that was executed can be described', k == 'ok', repr(r))
    if k == 'ok':
        lines_are('the description of the executed process', r, [want])


def some_entities():
    return [(new(Doer), 'doer') if choose(2) else (new(Other), 'other') for _ in range(choose(4))]


def line_of(k):
    return ["Action('doer')"] if k == 'doer' else ["Unknown entity('other')"]


@unit('C35', [I + 'format_entities', I + 'indent', I + 'format_event_handler', I + 'format_action'],
      assumes=('up to three entities stand for any number',), budget=200)
def entities():
    es = some_entities()
    if choose(2):
        lines_are('a description for each entity, in order', do(LI.format_entities, [e for e, _ in es]), [line_of(k) for _, k in es])
        return
    says = fresh_str('handler')

    class Handler(BaseEventHandler):
        def describe(self):
            return says, given

        def handle(self, event, context):
            fail('describing handles nothing')

        def __str__(self):
            return 'handler'
    one = len(es) == 1 and choose(2)
    given = es[0][0] if one else tuple(e for e, _ in es) if choose(2) else [e for e, _ in es]
    h = new(Handler, matcher=lambda e: fail('describing matches nothing'))
    want = [[says]] + [['    '] + line_of(k) for _, k in es]
    lines_are('a handler and what it does, indented', do(LI.format_event_handler, h), want)
    a = new(launch.actions.RegisterEventHandler, h)
    lines_are('the registration of a handler', do(LI.format_action, a),
              [["RegisterEventHandler('handler'):"]] + [['    '] + w for w in want])


@unit('C35', [I + 'LaunchIntrospector.format_launch_description', I + 'format_entities', I + 'indent', I + 'tree_like_indent',
              'launch.launch_description:LaunchDescription.entities'],
      assumes=('up to three entities, with lines as those of the unit `entities`, stand for any number; other trees: bounded',), budget=200)
def description():
    es = some_entities()

    class Named(LaunchDescription):
        def __str__(self):
            return 'the description'
    ld = new(Named, [e for e, _ in es])
    k, r = outcome(do, do(LI.LaunchIntrospector).format_launch_description, ld)
    prove('a description of any launch description', k == 'ok', repr(r))
    if k == 'ok':
        r = rt.native(r) if hasattr(rt, 'native') else r
        lines = r.split('\n')
        prove('the launch description comes first', lines[0] == 'the description')
        if es:
            prove('then its entities, each with its branch', lines[1:] == [('└── ' if i == len(es) - 1 else '├── ') + line_of(k)[0]
                                                                           for i, (_, k) in enumerate(es)], repr(lines))
        else:
            prove('and nothing else', lines[1:] in ([], ['']))


@unit('C35', ['launch.event_handler:BaseEventHandler.describe', 'launch.event_handler:EventHandler.describe', 'launch.event_handler:EventHandler.entities',
              'launch.event_handlers.on_action_event_base:OnActionEventBase.describe',
              'launch.event_handlers.on_action_event_base:OnActionEventBase.handler_description',
              'launch.event_handlers.on_action_event_base:OnActionEventBase.matcher_description',
              'launch.event_handlers.on_shutdown:OnShutdown.handler_description', 'launch.event_handlers.on_shutdown:OnShutdown.matcher_description',
              'launch.actions.register_event_handler:RegisterEventHandler.describe_conditional_sub_entities',
              'launch.utilities.normalize_to_list_of_entities_impl:normalize_to_list_of_entities'],
      assumes=('up to three entities stand for any number',), budget=200)
def handlers():
    ents = [new(Doer) for _ in range(choose(4))]
    single = len(ents) == 1 and choose(2)
    form = choose(3)
    given = ents[0] if single else (list(ents), tuple(ents), (e for e in ents))[form]
    once = bool(choose(2))
    which = choose(3)
    target = {}
    if which and choose(2):
        target = {'target_action': new(launch.actions.ExecuteProcess, cmd=['x'])}
    if which == 0:
        h = new(EventHandler, matcher=lambda e: fail('describing matches nothing'), entities=given, handle_once=once)
        first = 'EventHandler('
    elif which == 1:
        h = new(launch.event_handlers.OnProcessExit, on_exit=given, handle_once=once, **target)
        first = 'OnProcessExit('
    else:
        def call(event, context):
            fail('describing calls nothing')
        ents, given = [], call
        if choose(2):
            h = new(launch.event_handlers.OnProcessExit, on_exit=call, handle_once=once, **target)
            first = 'OnProcessExit('
        else:
            h = new(launch.event_handlers.OnShutdown, on_shutdown=call, handle_once=once)
            first = 'OnShutdown('
    for _ in range(2):
        d, es = do(h.describe)
        prove('the kind of the handler', And(z3.PrefixOf(StringVal(first), text(d)), z3.SuffixOf(StringVal('handle_once=%s)' % once), text(d))))
        what = text(d)
        event = ('ProcessExited' if first.startswith('OnProcessExit') else 'Shutdown' if first.startswith('OnShutdown') else None)
        prove('the event it waits for', event is None or z3.Contains(what, StringVal(event)))
        if first.startswith('OnProcessExit'):
            prove('and the action only if it waits for one', z3.Contains(what, StringVal('(event.action)')) == bool(target))
        prove('the entities it yields, in order, each time', list(rt.to_vlist(es).items) == ents, repr(es))
        del_ = list(rt.to_vlist(es).items)
        if type(es) is list:
            es.append('changed')      # what a caller does with the answer changes nothing
        a = new(launch.actions.RegisterEventHandler, h)
        c = list(rt.to_vlist(do(a.describe_conditional_sub_entities)).items)
        prove('conditional sub entities of the registration', len(c) == bool(del_) and all(
            list(rt.to_vlist(x).items) == ents and (t is d or str(t) == str(d)) for t, x in c), repr(c))
    if which < 2:
        ctx = new_context()
        if once:
            use_contract(LaunchContext.unregister_event_handler, lambda c, x: None)
        ctx._push_locals()
        r = do(h.handle, new(launch.Event), ctx)
        prove('describing does not change what is done', bool(r is given and single) or (list(rt.to_vlist(r).items) == ents), repr(r))


@unit('C35', ['launch.action:Action.describe_sub_entities', 'launch.action:Action.describe_conditional_sub_entities', 'launch.action:Action.describe',
              'launch.action:Action.get_sub_entities', 'launch.launch_description:LaunchDescription.describe_sub_entities',
              'launch.launch_description_entity:LaunchDescriptionEntity.describe_sub_entities',
              'launch.launch_description_entity:LaunchDescriptionEntity.describe_conditional_sub_entities',
              'launch.launch_description_entity:LaunchDescriptionEntity.describe', 'launch.actions.timer_action:TimerAction.describe',
              'launch.actions.timer_action:TimerAction.describe_conditional_sub_entities'])
def sub_entities():
    subs = [new(Doer) for _ in range(choose(4))]
    cond = None
    if choose(2):
        class C(launch.Condition):
            def evaluate(self, context):
                fail('describing evaluates no condition')
        cond = new(C)

    class Has(Doer):
        def get_sub_entities(self):
            return list(subs)
    a = new(Has, condition=cond)
    always = list(rt.to_vlist(do(a.describe_sub_entities)).items)
    maybe = [(t, list(rt.to_vlist(x).items)) for t, x in rt.to_vlist(do(a.describe_conditional_sub_entities)).items]
    prove('an action with a condition yields its entities conditionally, one without always',
          (always == subs and not maybe) if cond is None else (not always and len(maybe) == 1 and maybe[0][1] == subs), repr((always, maybe)))
    prove('the condition is described', all('doer' in str(t) for t, _ in maybe))
    b = new(Doer, condition=cond)
    prove('an action without sub entities', not list(rt.to_vlist(do(b.describe_sub_entities)).items)
          and all(not list(rt.to_vlist(x).items) for _, x in rt.to_vlist(do(b.describe_conditional_sub_entities)).items))
    ld = new(LaunchDescription, subs)
    prove('a launch description yields its entities', list(rt.to_vlist(do(ld.describe_sub_entities)).items) == subs)
    prove('and none conditionally', not list(rt.to_vlist(do(ld.describe_conditional_sub_entities)).items))
    o = new(Other)
    prove('an entity yields nothing unless it says so', not list(rt.to_vlist(do(o.describe_sub_entities)).items)
          and not list(rt.to_vlist(do(o.describe_conditional_sub_entities)).items))
    prove('an entity has to say what it is', outcome(do, LaunchDescriptionEntity.describe, o)[0] == 'raise')
    t = new(launch.actions.TimerAction, period=1.0, actions=list(subs))
    got = list(rt.to_vlist(do(t.describe_conditional_sub_entities)).items)
    prove('a timer yields its actions once its time is over', len(got) == 1 and list(rt.to_vlist(got[0][1]).items) == subs, repr(got))


@unit('C35', [S + '%s.describe' % n for n in (
    'anon_name:AnonName', 'command:Command', 'environment_variable:EnvironmentVariable', 'file_content:FileContent', 'find_executable:FindExecutable',
    'launch_configuration:LaunchConfiguration', 'local_substitution:LocalSubstitution', 'path_join_substitution:PathJoinSubstitution',
    'python_expression:PythonExpression', 'text_substitution:TextSubstitution', 'this_launch_file:ThisLaunchFile',
    'this_launch_file_dir:ThisLaunchFileDir', 'launch_log_dir:LaunchLogDir')] + ['launch.substitution:Substitution.describe'],
      assumes=('up to three parts stand for any number',))
def parts():
    X = launch.substitutions
    ps, qs, t = some_parts(3, 1), [new(Part), new(Part)], fresh_str('text')
    j = joined(ps)
    tests = [
        (new(X.AnonName, ps), ['AnonName(', *j, ')']),
        (new(X.Command, ps), ['Command(', *j, ')']),
        (new(X.EnvironmentVariable, ps, default_value=qs if choose(2) else None), ['EnvVar(', *j, ')']),
        (new(X.FileContent, ps), ['FileContent(', *joined(ps, ', '), ')']),
        (new(X.FindExecutable, name=ps), ['FindExec(', *j, ')']),
        (new(X.LaunchConfiguration, ps, default=qs if choose(2) else None), ['LaunchConfig(', *j, ')']),
        (new(X.LocalSubstitution, t), ["LocalVar('", t, "')"]),
        (new(X.LocalSubstitution, 'event.name', t), ["LocalVar('", t, "')"]),
        (new(X.PathJoinSubstitution, ps), ["PathJoin('", *j, "')"]),
        (new(X.PythonExpression, ps, qs), ['PythonExpr(', *j, ', [', *joined(qs, ', '), '])']),
        (new(X.TextSubstitution, text=t), ["'", t, "'"]),
        (new(X.ThisLaunchFile), ['ThisLaunchFile()']), (new(X.ThisLaunchFileDir), ['ThisLaunchFileDir()']),
        (new(launch.substitutions.LaunchLogDir) if hasattr(X, 'LaunchLogDir') else new(X.ThisLaunchFile),
         ['LaunchLogDir()' if hasattr(X, 'LaunchLogDir') else 'ThisLaunchFile()'])]
    s, want = tests[choose(len(tests))]
    same_text('what it is and its parts, in order', do(s.describe), *want)


@unit('C35', [S + 'boolean_substitution:%s.describe' % n for n in ('NotSubstitution', 'AndSubstitution', 'OrSubstitution', 'AnySubstitution', 'AllSubstitution')]
      + [S + 'equals_substitution:EqualsSubstitution.describe', S + 'not_equals_substitution:NotEqualsSubstitution.describe',
         S + 'if_else_substitution:IfElseSubstitution.describe'])
def names():
    X = launch.substitutions
    a, b, c = new(Part), new(Part), new(Part)
    tests = [new(X.NotSubstitution, a), new(X.AndSubstitution, a, b), new(X.OrSubstitution, a, b), new(X.AnySubstitution, a, b),
             new(X.AllSubstitution, a, b), new(X.EqualsSubstitution, a, b), new(X.NotEqualsSubstitution, a, b), new(X.IfElseSubstitution, a, b, c)]
    s = tests[choose(len(tests))]
    k, r = outcome(do, s.describe)
    prove('says what it is', k == 'ok' and str(r).startswith(type(s).__name__ + '('), repr(r))


@unit('C35', ['launch.conditions.%s.describe' % n for n in (
    'if_condition:IfCondition', 'unless_condition:UnlessCondition', 'launch_configuration_equals:LaunchConfigurationEquals',
    'launch_configuration_not_equals:LaunchConfigurationNotEquals')] + ['launch.condition:Condition.describe'])
def conditions():
    C = launch.conditions
    a = new(Part)
    import warnings
    warnings.simplefilter('ignore')
    tests = [new(C.IfCondition, a), new(C.UnlessCondition, a), new(C.LaunchConfigurationEquals, 'n', a), new(C.LaunchConfigurationNotEquals, 'n', a),
             new(launch.Condition)]
    s = tests[choose(len(tests))]
    k, r = outcome(do, s.describe)
    prove('says what it is', k == 'ok' and type(s).__name__ in str(r), repr(r))
