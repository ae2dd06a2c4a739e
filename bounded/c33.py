"""C33, bounded: elements of XML and YAML files compared with the actions constructed in Python."""
import io
import json
import shlex
import xml.etree.ElementTree as ET

import launch
import launch.actions as AC
import launch_xml
import launch_yaml
from launch.conditions import IfCondition, UnlessCondition
from launch.substitutions import LaunchConfiguration

from .common import *

RULE = ('random elements of every kind with random attributes (texts with and without substitutions, empty ones, zero, false) and '
        'nested elements, in XML and in YAML, compared field by field with the action constructed in Python; each wrong value rejected; '
        'non-trivial: distinct elements')
CONF = ({'a': 'A', 'b': 'x y', 'c': 'true'}, {'a': '', 'b': 'B/b', 'c': 'false'})
WORDS = ['v', '', '', '', ' ', 'a b', 'é', '$(var a)', 'p$(var b)', '$(var a)$(var b)q', '0', 'true', 'x=y', '.', '-']


def val(t):
    """A text with references, as substitutions."""
    out, i = [], 0
    while i < len(t):
        j = t.find('$(var ', i)
        if j < 0:
            out.append(TextSubstitution(text=t[i:]))
            break
        if j > i:
            out.append(TextSubstitution(text=t[i:j]))
        k = t.index(')', j)
        out.append(LaunchConfiguration(t[j + 6:k]))
        i = k + 1
    return out or [TextSubstitution(text='')]


def performed(x):
    r = []
    for c in CONF:
        ctx = LaunchContext()
        ctx.launch_configurations.update(c)
        r.append(''.join(s.perform(ctx) for s in x))
    return tuple(r)


def canon(x, seen=()):
    """Fields of an object, texts as expanded in two contexts."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if id(x) in seen:
        return '...'
    seen = seen + (id(x),)
    if isinstance(x, launch.Substitution):
        return performed([x])
    if isinstance(x, (list, tuple)):
        if not len(x):
            return ('', '')
        if all(isinstance(s, launch.Substitution) for s in x):
            return performed(x)
        return [canon(s, seen) for s in x]
    if isinstance(x, dict):
        return [(canon(k, seen), canon(v, seen)) for k, v in x.items()]
    if isinstance(x, (launch.Action, launch.Condition, launch.LaunchDescriptionEntity, launch.LaunchDescriptionSource)) or \
            type(x).__module__.startswith('launch.descriptions'):
        return (type(x).__name__, {k: canon(v, seen) for k, v in sorted(vars(x).items())})
    return type(x).__name__


def xml(tag, attrs, lists, kids):
    e = ET.Element(tag, {k: str(v).lower() if isinstance(v, bool) else repr(v) if isinstance(v, float) else str(v) for k, v in attrs.items()})
    for t, at in lists:
        ET.SubElement(e, t, at)
    for k in kids:
        e.append(xml(*k))
    return e


def yaml(tag, attrs, lists, kids):
    d = dict(attrs)
    for t, at in lists:
        d.setdefault(t, []).append(at)
    if tag in ('group', 'timer'):
        d['children'] = [yaml(*k) for k in kids]
    return {tag: d}


def parsed(form, el):
    if form == 'xml':
        root = ET.Element('launch')
        root.append(xml(*el))
        doc, mod = ET.tostring(root, encoding='unicode'), launch_xml
    else:
        doc, mod = json.dumps({'launch': [yaml(*el)]}), launch_yaml
    r, p = mod.Parser.load(io.StringIO(doc))
    [a] = p.parse_description(r).entities
    return a


def some(r, **k):
    return {n: f() for n, f in k.items() if r.random() < .5}


def pick(r, tag, depth=1):
    """(element, the action in Python)"""
    w = lambda: r.choice(WORDS)      # noqa: E731
    b = lambda: r.random() < .5      # noqa: E731
    attrs, lists, kids, args = {}, [], [], {}

    def text(name, kw=None):
        attrs[name] = w()
        args[kw or name] = val(attrs[name])

    def flag(name, kw=None):
        attrs[name] = b()
        args[kw or name] = attrs[name]

    def maybe(f, *a):
        if b():
            f(*a)

    def pairs(t, kw, as_list=False):
        lists.extend((t, dict(name='n%d%s' % (i, r.choice(['', '$(var a)', ' '])), value=w())) for i in range(r.randint(1, 3)))
        ps = [(tuple(val(at['name'])), val(at['value'])) for _, at in lists]
        args[kw] = ps if as_list else dict(ps)
    cls = {'let': AC.SetLaunchConfiguration, 'set_env': AC.SetEnvironmentVariable, 'unset_env': AC.UnsetEnvironmentVariable,
           'append_env': AC.AppendEnvironmentVariable, 'log': AC.LogInfo, 'shutdown': AC.Shutdown, 'reset_env': AC.ResetEnvironment,
           'reset': AC.ResetLaunchConfigurations, 'arg': AC.DeclareLaunchArgument, 'include': AC.IncludeLaunchDescription,
           'group': AC.GroupAction, 'timer': AC.TimerAction, 'executable': AC.ExecuteProcess}[tag]
    if tag in ('let', 'set_env', 'append_env'):
        text('name'), text('value')
    if tag == 'unset_env':
        text('name')
    if tag == 'append_env':
        maybe(text, 'separator')
        maybe(flag, 'prepend')
    if tag == 'log':
        text('message', 'msg')
    if tag == 'shutdown' and b():
        attrs['reason'] = w() or 'r'
        args['reason'] = val(attrs['reason'])
    if tag in ('reset', 'group'):
        maybe(pairs, 'keep', 'launch_configurations')
    if tag == 'arg':
        args['name'] = attrs['name'] = r.choice(['n', 'some name', 'é'])
        if b():
            args['description'] = attrs['description'] = r.choice(['', 'what it is', ' x '])
        if b():
            args['choices'] = [r.choice(['', 'v', 'v w', 'true']) for _ in range(r.randint(1, 3))]
            lists += [('choice', dict(value=c)) for c in args['choices']]
            if b():
                attrs['default'] = r.choice(args['choices'])
        elif b():
            attrs['default'] = w()
        if 'default' in attrs:
            args['default_value'] = val(attrs['default'])
    if tag == 'include':
        text('file', 'launch_description_source')
        maybe(pairs, 'arg', 'launch_arguments', True)
    if tag == 'group':
        maybe(flag, 'scoped')
        maybe(flag, 'forwarding')
    if tag == 'timer':
        attrs['period'] = r.choice([0.0, 1.5, 0.001, 300.0, '$(var a)'])
        args['period'] = val(attrs['period']) if isinstance(attrs['period'], str) else attrs['period']
        maybe(flag, 'cancel_on_shutdown')
        if b():
            attrs['cancel_on_shutdown'] = '$(var c)'
            args['cancel_on_shutdown'] = val('$(var c)')
    if tag in ('group', 'timer'):
        more = [pick(r, r.choice(TAGS if depth else TAGS[:6]), depth - 1) for _ in range(r.randint(0, 2))]
        kids = [e for e, _ in more]
        args['actions'] = [a for _, a in more]
    if tag == 'executable':
        attrs['cmd'] = r.choice(['ls', 'ls -l', "prog 'a b' -c", '$(var a)/x $(var b)'])
        args['cmd'] = [val(x) for x in (attrs['cmd'].split(' $') if '$' in attrs['cmd'] else shlex.split(attrs['cmd']))]
        if '$' in attrs['cmd']:
            args['cmd'] = [val('$(var a)/x'), val('$(var b)')]
        maybe(text, 'cwd'), maybe(text, 'name'), maybe(text, 'launch-prefix', 'prefix')
        maybe(flag, 'shell'), maybe(flag, 'emulate_tty')
        for n, kw in (('output', 'output'), ('respawn', 'respawn')):
            if b():
                attrs[n] = r.choice(['true', '$(var c)', 'log'])
                args[kw] = val(attrs[n])
        if b():
            attrs['on_exit'] = 'shutdown'
            args['on_exit'] = [AC.Shutdown()]
        for n in ('respawn_delay', 'sigkill_timeout', 'sigterm_timeout'):
            if b():
                attrs[n] = r.choice([0.0, 0.25, 7.0, 0.001, 12345678.0])
                args[n] = attrs[n] if n == 'respawn_delay' else str(attrs[n])
        if b():
            args['respawn_max_retries'] = attrs['respawn_max_retries'] = r.choice([-1, 0, 1, 5])
        maybe(pairs, 'env', 'additional_env')
    c = r.choice([None, None, ('if', IfCondition), ('unless', UnlessCondition)])
    if c:
        attrs[c[0]] = r.choice(['true', '', '$(var c)', 'false', ' x'])
        args['condition'] = c[1](predicate_expression=val(attrs[c[0]]))
    a = cls(**args)
    GIVEN.append((a, args.get('condition')))
    return (tag, attrs, lists, kids), a


GIVEN = []      # the actions constructed with the condition of each


TAGS = ['let', 'set_env', 'unset_env', 'append_env', 'log', 'shutdown', 'reset_env', 'reset', 'arg', 'include', 'group', 'timer', 'executable']
FLAGS = [('group', 'scoped'), ('group', 'forwarding'), ('executable', 'shell'), ('executable', 'emulate_tty')]
WRONG = ([(t, {n: v}) for t, n in FLAGS for v in ('flase', '$(var c)', '', '2', 'truth')]
         + [('executable', {n: v}) for n in ('respawn_delay', 'sigkill_timeout', 'sigterm_timeout') for v in (-1.0, -0.001, 'soon', '$(var a)', '')]
         + [('executable', {'respawn_max_retries': v}) for v in ('many', 1.5, '$(var a)', '')]
         + [('executable', {'on_exit': v}) for v in ('respawn', 'Shutdown', '', ' shutdown')]
         + [(t, {'if': 'true', 'unless': x}) for t in TAGS for x in ('true', 'false', '')])
NEEDED = {'let': dict(name='n', value='v'), 'set_env': dict(name='n', value='v'), 'unset_env': dict(name='n'), 'append_env': dict(name='n', value='v'),
          'log': dict(message='m'), 'arg': dict(name='n'), 'include': dict(file='f'), 'timer': dict(period=1.0), 'executable': dict(cmd='ls')}


def run(h):
    r = h.rng
    for i in range(h.n(120)):
        for tag in TAGS:
            el, want = pick(r, tag)

            def f(form, el=el, want=want, given=GIVEN[-1][1]):
                try:
                    a = parsed(form, el)
                except Exception as e:
                    raise AssertionError('%r is rejected: %r' % (el, e))
                eq(canon(a), canon(want), 'action of %r' % (el,))
                eq(canon(a.condition), canon(given), 'condition of %r' % (el,))
            for form in ('xml', 'yaml'):
                h.case(tag, (form, el), lambda form=form: f(form))
    for i in range(h.n(60)):
        els = [pick(r, r.choice(TAGS), 0) for _ in range(r.randint(0, 4))]
        dep = r.choice([None, '', 'old', 'x y'])

        def whole(form, els=els, dep=dep):
            if form == 'xml':
                root = ET.Element('launch', {} if dep is None else {'deprecated': dep})
                for e, _ in els:
                    root.append(xml(*e))
                doc, mod = ET.tostring(root, encoding='unicode'), launch_xml
            else:
                d = {'children': [yaml(*e) for e, _ in els]}
                if dep is not None:
                    d['deprecated'] = dep
                doc, mod = json.dumps({'launch': d}), launch_yaml
            x, p = mod.Parser.load(io.StringIO(doc))
            ld = p.parse_description(x)
            eq([canon(a) for a in ld.entities], [canon(a) for _, a in els], 'actions of the file')
            eq((ld.deprecated, ld.deprecated_reason), (dep is not None, dep), 'deprecated')
        for form in ('xml', 'yaml'):
            h.case('whole', (form, dep, [e for e, _ in els]), lambda form=form, whole=whole: whole(form))
    for tag, attrs in WRONG:
        el = (tag, dict(NEEDED.get(tag, {}), **attrs), [], [])

        def g(form, el=el):
            try:
                parsed(form, el)
            except Exception:
                return
            raise AssertionError('%r is accepted' % (el,))
        for form in ('xml', 'yaml'):
            h.case('wrong values', (form, el), lambda form=form, g=g: g(form))
