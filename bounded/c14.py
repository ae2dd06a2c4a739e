"""C14, bounded: real XML and YAML elements x histories of reads, and whole files with one extra attribute or child."""
import io
import json
import xml.etree.ElementTree as ET
from typing import List

import launch_xml
import launch_yaml
from launch.frontend import Entity as Base
from launch.utilities.type_utils import coerce_to_type, is_instance_of

from .common import *

TYPES = (str, int, float, bool, List[int], List[str], List[float], None)
XTEXT = ['', '1', 'x', 'true', '1.5', '1;2', '1, 2', 'a;b', ' ', '[1, 2]', '1;x']
YVALS = [1, 'x', True, 1.5, [1, 2], ['a'], '1', None, {'q': 1}, [{'p': 1}], [{'p': 1}, {'q': 2}], [], [{'p': 1}, 3], [1.0, 2.0], [3, {'p': 1}]]


def args(typ, opt, cbs):
    """Arguments equal to their default are left out."""
    k = {}
    if typ is not str:
        k['data_type'] = typ
    if opt:
        k['optional'] = True
    if not cbs:
        k['can_be_str'] = False
    return k


def rejects(fn, what=''):
    try:
        fn()
    except ValueError:
        return
    except Exception as e:
        raise AssertionError('%s: %r instead of a ValueError' % (what, e))
    raise AssertionError('%s: accepted' % what)


def xml_value(text, sep, typ, cbs):
    """('ok', value) or 'bad' (not of the type)."""
    try:
        if sep is None:
            return 'ok', coerce_to_type(text, typ, can_be_str=cbs)
        parts = text.split(sep)
        if typ is not None and typ in (str, int, float, bool):
            return 'bad', None
        t = None if typ is None else typ.__args__[0]
        out = [coerce_to_type(p, t, can_be_str=cbs) for p in parts]
        if t is None and len({type(x) for x in out} - ({str} if cbs else set())) > 1:
            return 'bad', None
        return 'ok', out
    except (ValueError, TypeError):
        return 'bad', None


def xml_history(h, r):
    names = ['a', 'b', 'if', 'a-sep', 'b-sep', 'c']
    attrs = {n: r.choice(XTEXT) for n in r.sample(names, r.randint(0, 4))}
    for s in ('a-sep', 'b-sep'):
        if s in attrs:
            attrs[s] = r.choice([';', ',', ', '])
    kids = [r.choice('xyza') for _ in range(r.randint(0, 4))]
    ops = []
    for _ in range(r.randint(0, 6)):
        q = r.random()
        if q < .6:
            ops.append(('attr', r.choice(names + list(attrs) * 2 + ['-sep', 'x']), r.choice(TYPES), r.random() < .6, r.random() < .5))
        elif q < .9:
            ops.append(('kids', r.choice('xyzab'), r.random() < .7))
        else:
            ops.append(('children',))

    def f():
        el = ET.fromstring(ET.tostring(build(attrs, kids)))
        e = launch_xml.Entity(el) if hasattr(launch_xml, 'Entity') else launch_xml.entity.Entity(el)
        eq(e.type_name, 'root')
        ra, rc = set(), set()

        def check():
            if set(kids) - rc or set(attrs) - ra:
                rejects(e.assert_entity_completely_parsed, 'unread')
            else:
                e.assert_entity_completely_parsed()
        for op in ops:
            if op[0] == 'children':
                got = e.children
                eq([g.type_name for g in got], kids, 'children')
                eq([g.get_attr('i') for g in got], [str(i) for i in range(len(kids))], 'children')
                rc |= set(kids)
            elif op[0] == 'kids':
                want = [i for i, k in enumerate(kids) if k == op[1]]
                if want:
                    got = e.get_attr(op[1], data_type=List[Base], optional=op[2])
                    eq([(g.type_name, g.get_attr('i')) for g in got], [(op[1], str(i)) for i in want], 'nested')
                    rc.add(op[1])
                elif op[2]:
                    eq(e.get_attr(op[1], data_type=List[Base], optional=True), None, 'absent')
                else:
                    raises(AttributeError, lambda: e.get_attr(op[1], data_type=List[Base]), 'absent')
            else:
                _, n, typ, opt, cbs = op
                k = args(typ, opt, cbs)
                if n not in attrs:
                    if opt:
                        eq(e.get_attr(n, **k), None, 'absent')
                    else:
                        raises(AttributeError, lambda: e.get_attr(n, **k), 'absent')
                    continue
                ok, v = xml_value(attrs[n], attrs.get(n + '-sep'), typ, cbs)
                if ok == 'ok':
                    g = e.get_attr(n, **k)
                    eq((g, type(g)), (v, type(v)), 'value')
                else:
                    raises((TypeError, ValueError), lambda: e.get_attr(n, **k), 'type')
                    return
                ra.add(n)
                if n + '-sep' in attrs:
                    ra.add(n + '-sep')
            check()
        check()
    h.case('xml history', (attrs, kids, ops), f)


def build(attrs, kids):
    el = ET.Element('root', attrs)
    for i, k in enumerate(kids):
        ET.SubElement(el, k, {'i': str(i)})
    return el


def yaml_history(h, r):
    names = ['a', 'b', 'if', 'children']
    el = {n: r.choice(YVALS) for n in r.sample(names[:3], r.randint(0, 3))}
    kids = None
    if r.random() < .5:
        kids = [r.choice('xyz') for _ in range(r.randint(0, 3))]
        el['children'] = [{k: {'i': i}} for i, k in enumerate(kids)]
    as_list = r.random() < .15
    if as_list:
        kids = kids or []
        el = [{k: {'i': i}} for i, k in enumerate(kids)]
    ops = []
    for _ in range(r.randint(0, 6)):
        if r.random() < .8:
            ops.append(('attr', r.choice(names[:3] + [x for x in el if isinstance(x, str)] * 2), r.choice(TYPES + (List[Base],) * 3), r.random() < .6, r.random() < .5))
        else:
            ops.append(('children',))
    ops = [o for o in ops if o[1:2] != ('children',)]

    def f():
        e = launch_yaml.Entity(el, 'root') if hasattr(launch_yaml, 'Entity') else launch_yaml.entity.Entity(el, 'root')
        eq(e.type_name, 'root')
        read = set()

        def check():
            if as_list:
                done = 'children' in read
            else:
                done = not set(el) - read
            if done:
                e.assert_entity_completely_parsed()
            else:
                rejects(e.assert_entity_completely_parsed, 'unread')
        for op in ops:
            if op[0] == 'children':
                if kids is None:
                    raises(Exception, lambda: e.children, 'no children')
                    continue
                eq([(g.type_name, g.get_attr('i', data_type=int)) for g in e.children], [(k, i) for i, k in enumerate(kids)], 'children')
                read.add('children')
                check()
                continue
            _, n, typ, opt, cbs = op
            k = args(typ, opt, cbs)
            if as_list or n not in el:
                if opt:
                    eq(e.get_attr(n, **k), None, 'absent')
                else:
                    raises(AttributeError, lambda: e.get_attr(n, **k), 'absent')
                check()
                continue
            v = el[n]
            if typ == List[Base]:
                if isinstance(v, list) and all(isinstance(x, dict) for x in v):
                    got = e.get_attr(n, **k)
                    eq([g.type_name for g in got], [n] * len(v), 'nested')
                    for g, x in zip(got, v):
                        for key, val in x.items():
                            eq(g.get_attr(key, data_type=int), val, 'nested')
                else:
                    raises(TypeError, lambda: e.get_attr(n, **k), 'no entities')
                    return
            elif is_instance_of(v, typ, can_be_str=cbs):
                eq(e.get_attr(n, **k), v, 'value')
            else:
                raises(TypeError, lambda: e.get_attr(n, **k), 'type')
                return
            read.add(n)
            check()
        check()
    h.case('yaml history', (el, ops), f)



# ---------------------------------------------------------------- whole files
SIMPLE = {
    'let': dict(name='n', value='v'), 'arg': dict(name='n', default='d', description='t'), 'append_env': dict(name='PYVC_A', value='v', separator=';'),
    'set_env': dict(name='PYVC_A', value='v'), 'unset_env': dict(name='PYVC_A'), 'log': dict(message='m'), 'shutdown': dict(reason='r'),
    'reset_env': {}, 'reset': {}, 'include': dict(file='f'), 'group': dict(scoped=True, forwarding=False),
    'timer': dict(period=1.5, cancel_on_shutdown=True),
    'executable': dict(cmd='ls', cwd='/', name='n', output='log', respawn='true', respawn_delay=2.0, respawn_max_retries=3, sigkill_timeout=1.0,
                       sigterm_timeout=2.0, shell=True, emulate_tty=False),
}
REQUIRED = {'let': ['name', 'value'], 'arg': ['name'], 'append_env': ['name', 'value'], 'set_env': ['name', 'value'], 'unset_env': ['name'],
            'log': ['message'], 'include': ['file'], 'timer': ['period'], 'executable': ['cmd']}
LISTS = {'arg': ('choice', dict(value='d')), 'include': ('arg', dict(name='p', value='q')), 'executable': ('env', dict(name='p', value='q')),
         'reset': ('keep', dict(name='p', value='q')), 'group': ('keep', dict(name='p', value='q'))}
NEST = ('group', 'timer')


class Node:
    def __init__(self, tag, attrs, lists, kids):
        self.tag, self.attrs, self.lists, self.kids = tag, attrs, lists, kids

    def nodes(self):
        yield self
        for x in self.lists + (self.kids or []):
            yield from x.nodes()

    def xml(self):
        el = ET.Element(self.tag, {k: (str(v).lower() if isinstance(v, bool) else str(v)) for k, v in self.attrs.items()})
        for x in self.lists + (self.kids or []):
            el.append(x.xml())
        return el

    def yaml(self, as_list=False):
        if as_list and not self.attrs and not self.lists:
            return [{x.tag: x.yaml()} for x in self.kids]
        d = dict(self.attrs)
        for x in self.lists:
            d.setdefault(x.tag, []).append(x.yaml())
        if self.kids is not None:
            d['children'] = [{x.tag: x.yaml()} for x in self.kids]
        return d


def tree(r, depth):
    tag = r.choice(sorted(SIMPLE))
    if depth == 0 and tag in NEST:
        tag = 'let'
    attrs = {k: v for k, v in SIMPLE[tag].items() if k in REQUIRED.get(tag, ()) or r.random() < .5}
    if r.random() < .3:
        attrs[r.choice(['if', 'unless'])] = 'true'
    lists = []
    if tag in LISTS and r.random() < .6:
        t, at = LISTS[tag]
        lists = [Node(t, dict(at), [], None) for _ in range(r.randint(1, 3))]
    kids = [tree(r, depth - 1) for _ in range(r.randint(0, 3))] if tag in NEST else None
    return Node(tag, attrs, lists, kids)


def parse(fmt, text):
    P = launch_xml.Parser if fmt == 'xml' else launch_yaml.Parser
    e, p = P.load(io.StringIO(text))
    return p.parse_description(e)


def render(fmt, root, as_list=False):
    if fmt == 'xml':
        return ET.tostring(root.xml(), encoding='unicode')
    return json.dumps({'launch': root.yaml(as_list)})


def files(h, r):
    root = Node('launch', {'deprecated': 'x'} if r.random() < .3 else {}, [], [tree(r, 2) for _ in range(r.randint(1, 3))])
    as_list = r.random() < .5
    for fmt in ('xml', 'yaml'):
        text = render(fmt, root, as_list)

        def good(fmt=fmt, text=text):
            d = parse(fmt, text)
            eq(len(d.entities), len(root.kids), 'actions')
        h.case('accepted', (fmt, text), good)
        for _ in range(4):
            n = r.choice(list(root.nodes()))
            where = r.random()
            extra = r.choice(['extra', 'nam', 'Name', 'name-sep ' if fmt == 'yaml' else 'zzz-sep', 'valu', 'keep2', 'param'])
            undo = []
            if where < .6 or fmt == 'yaml':
                if extra in n.attrs:
                    continue
                n.attrs[extra] = '1'
                undo.append(lambda n=n, extra=extra: n.attrs.pop(extra))
            elif n.tag in NEST or n.tag == 'launch':
                continue
            else:
                n.lists = n.lists + [Node(extra.strip(), {}, [], None)]
                undo.append(lambda n=n: n.lists.pop())
            bad = render(fmt, root)
            for u in undo:
                u()
            h.case('rejected', (fmt, bad), lambda fmt=fmt, bad=bad: rejected(fmt, bad))


def stray_keep(h):
    """A keep element among the children in YAML, where keep is a key of the group."""
    KEY = 'YAML group with a keep key and a keep entity among its children'
    for key in (False, True):
        for kids in (['keep'], ['let', 'keep'], ['keep', 'let', 'keep']):
            g = dict(children=[{t: dict(name='n', value='v')} for t in kids])
            if key:
                g['keep'] = [dict(name='p', value='q')]
            text = json.dumps({'launch': [{'group': g}]})
            h.case(KEY if key else 'rejected', text, lambda text=text: rejected('yaml', text))


def rejected(fmt, text):
    try:
        parse(fmt, text)
    except Exception:
        return
    raise AssertionError('accepted')


RENAMED = {('arg', 'default'): 'default_value', ('arg', 'choice'): 'choices', ('include', 'file'): 'launch_description_source',
           ('include', 'arg'): 'launch_arguments', ('log', 'message'): 'msg', ('group', 'keep'): 'launch_configurations',
           ('reset', 'keep'): 'launch_configurations', ('executable', 'env'): 'additional_env'}


def plain(v):
    if isinstance(v, launch.Substitution):
        return v.perform(LaunchContext())
    if isinstance(v, dict):
        return [(plain(k), plain(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        out = [plain(x) for x in v]
        return out[0] if len(out) == 1 and v and isinstance(v[0], launch.Substitution) else out
    if isinstance(v, launch.Condition):
        return type(v).__name__
    return v


def handed_on(h, r):
    """What is read reaches the action."""
    tag = r.choice(sorted(SIMPLE))
    pool = dict(SIMPLE[tag])
    if tag == 'append_env':
        pool['prepend'] = True
    pool.pop('respawn', None)
    attrs = {k: v for k, v in pool.items() if k in REQUIRED.get(tag, ()) or r.random() < .5}
    cond = r.choice([None, None, 'if', 'unless'])
    lists = []
    if tag in LISTS and r.random() < .6:
        t, at = LISTS[tag]
        lists = [Node(t, {k: v + str(i) for k, v in at.items()}, [], None) for i in range(r.randint(1, 2))]
        if tag == 'arg' and 'default' in attrs:
            attrs['default'] = 'd0'
    n = Node(tag, dict(attrs, **({cond: 'true'} if cond else {})), lists, [] if tag in NEST else None)
    want = {RENAMED.get((tag, k), k): v for k, v in attrs.items()}
    if tag == 'executable':
        want = {k: str(v) if k in ('sigkill_timeout', 'sigterm_timeout') else [v] if k == 'cmd' else v for k, v in want.items()}
    if lists:
        key = RENAMED[tag, lists[0].tag]
        want[key] = [x.attrs['value'] for x in lists] if tag == 'arg' else [((x.attrs['name']), x.attrs['value']) for x in lists]
    if cond:
        want['condition'] = {'if': 'IfCondition', 'unless': 'UnlessCondition'}[cond]
    if tag in NEST:
        want['actions'] = []
    for fmt in ('xml', 'yaml'):
        def f(fmt=fmt):
            P = launch_xml.Parser if fmt == 'xml' else launch_yaml.Parser
            e, p = P.load(io.StringIO(render(fmt, Node('launch', {}, [], [n]))))
            from launch.frontend import expose
            p.load_launch_extensions()
            _, kw = expose.action_parse_methods[tag](e.children[0], p)
            got = {k: plain(v) for k, v in kw.items()}
            norm = {k: [tuple(x) if isinstance(x, (list, tuple)) else x for x in v] if isinstance(v, list) else v for k, v in got.items()}
            eq(norm, {k: [tuple(x) if isinstance(x, (list, tuple)) else x for x in v] if isinstance(v, list) else v for k, v in want.items()}, 'arguments of the action')
        h.case('handed on', (fmt, tag, n.attrs, [x.attrs for x in lists]), f)


def missing(h, r):
    for tag, req in sorted(REQUIRED.items()):
        for m in req:
            attrs = {k: v for k, v in SIMPLE[tag].items() if k != m}
            root = Node('launch', {}, [], [Node(tag, attrs, [], [] if tag in NEST else None)])
            for fmt in ('xml', 'yaml'):
                h.case('required', (fmt, tag, m), lambda fmt=fmt, root=root: rejected(fmt, render(fmt, root)))
    for tag in sorted(SIMPLE):
        for extra in ('extra', 'value2'):
            for fmt in ('xml', 'yaml'):
                root = Node('launch', {}, [], [Node(tag, dict(SIMPLE[tag], **{extra: 'x'}), [], [] if tag in NEST else None)])
                h.case('each action', (fmt, tag), lambda fmt=fmt, root=root: rejected(fmt, render(fmt, root)))
        t = LISTS.get(tag)
        if t:
            for fmt in ('xml', 'yaml'):
                for n in (1, 2):
                    subs = [Node(t[0], dict(t[1]), [], None) for _ in range(n)]
                    subs[-1].attrs['extra'] = 'x'
                    root = Node('launch', {}, [], [Node(tag, dict(SIMPLE[tag]), subs, [] if tag in NEST else None)])
                    h.case('each nested', (fmt, tag), lambda fmt=fmt, root=root: rejected(fmt, render(fmt, root)))
    for bad in ('<launc/>', '<launch><nope/></launch>', '<launch x="1"/>', '<arg name="a"/>'):
        h.case('root', bad, lambda bad=bad: rejected('xml', bad))
    for bad in ({'launc': []}, {'launch': [{'nope': {}}]}, {'launch': {'x': 1, 'children': []}}, {'launch': {}}, {'launch': 'children'}, {'launch': [{}]},
                {'launch': [{'let': {'name': 'a', 'value': 'b'}, 'log': {'message': 'x'}}]}, {'launch': [{'group': 'children'}]}):
        h.case('root', bad, lambda bad=bad: rejected('yaml', json.dumps(bad)))


def run(h):
    h.rule = ('elements with attributes and children over a small alphabet x random histories of reads (attribute of every type, nested list, '
              'children), completeness asserted after every read; random launch files in both formats, each with single extra attributes/children')
    r = h.rng
    for _ in range(h.n(600)):
        xml_history(h, r)
        yaml_history(h, r)
    for _ in range(h.n(150)):
        files(h, r)
    for _ in range(h.n(300)):
        handed_on(h, r)
    missing(h, r)
    stray_keep(h)
