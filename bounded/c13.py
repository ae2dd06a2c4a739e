from typing import List
import yaml
from launch.frontend.type_utils import get_data_type_from_identifier
from launch.substitutions import LaunchConfiguration
from launch.utilities import type_utils as T
from .common import *

RULE = ('texts (numbers in many notations, truth spellings, YAML lists, maps, broken YAML) coerced to every type and list type with and '
        'without letting texts through, values and lists of values checked and normalized, substitutions against the coercion of the text they '
        'expand to; non-trivial: distinct (operation, input, type)')
SC = (int, float, bool, str)
TYPES = [None, int, float, bool, str, List[int], List[float], List[bool], List[str]]


class Bad(Exception):
    pass


def elem(t):
    return (t, False) if t in SC else (t.__args__[0], True)


def exact(v, t, s=False):
    """v has exactly the scalar type t."""
    return type(v) is t or (s and type(v) is str)


def uniform(v, s=False):
    return any(all(exact(x, t, s) for x in v) for t in SC)


def valid(v, s=False):
    return uniform(v, s) if isinstance(v, list) else type(v) in SC


def isinst(v, t, s=False):
    if t is None:
        return valid(v, s)
    e, is_list = elem(t)
    if is_list:
        return isinstance(v, list) and all(exact(x, e, s) for x in v)
    return exact(v, e, s)


def reading(text, s):
    if not text:
        return text
    try:
        v = yaml.safe_load(text)
    except Exception:
        if s:
            return text
        raise Bad
    if not valid(v, s):
        raise Bad
    return v


def coerce(text, t, s=False):
    if t is None:
        return reading(text, s)
    e, is_list = elem(t)
    if is_list:
        v = reading(text, s)
        if not isinstance(v, list) or not all(exact(x, e, s) for x in v):
            raise Bad
        return v
    if e is str:
        return text
    if e in (int, float):
        try:
            return e(text)
        except ValueError:
            if s:
                return text
            raise Bad
    v = reading({'1': 'true', '0': 'false'}.get(text, text), s)
    if not exact(v, bool, s):
        raise Bad
    return v


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or (a != a and b != b))


def run(h):
    r = h.rng
    texts = ['', ' ', '0', '1', '-1', '+3', '007', '0x10', '0b1', '1_000', '1.', '1.0', '-.5', '1e3', '1.0e3', '1e', 'nan', '.inf', 'inf',
             'true', 'True', 'TRUE', 'tRuE', 'false', 'yes', 'no', 'on', 'off', 'y', 'n', 'null', '~', 'x', 'a b', "'1'", '"true"', "''",
             '[]', '[1]', '[1, 2]', '[1, 2.0]', '[1, true]', '[true, 1]', '[true, false]', '[1.0, 2.5]', '[a, b]', '[a, 1]', '[1, a]',
             "['1', 2]", '["1", "2"]', '[true, a]', '[a, 1.5]', '[1, a, 2.0]', '[[1]]', '[null]', '[1, null]', '{a: 1}', 'a: 1', '- 1\n- 2',
             '- a\n- b', '[1', '{', ': :', '@x', '%x', '!!python/object:os.system x', '2001-01-01', '1:30', 'ünï', '[é]', '[0, 1]',
             '[1, 0, true]', '[yes, no]', '1 ', ' 1', '１', '[.5, 1.]', '[1.5, 2]', '[true, 1.5]', '[1.5, true]', '# c', '...', '---']

    def agree(fn, ref, what):
        try:
            want = ref()
        except Bad:
            raises((ValueError, TypeError), fn, what)
            return
        got = fn()
        if not same(got, want):
            raise AssertionError('%s: got %r, expected %r' % (what, got, want))

    def text_case(t, typ, s):
        def f():
            k = dict(can_be_str=True) if s else {}
            agree(lambda: T.coerce_to_type(t, typ, **k), lambda: coerce(t, typ, s), 'coerce_to_type')
            agree(lambda: T.get_typed_value(t, typ, **{'can_be_str': s}), lambda: coerce(t, typ, s), 'get_typed_value')
            if not s:
                ctx = LaunchContext()
                ctx.launch_configurations['v'] = t
                cut = r.randint(0, len(t))
                for sub in ([TextSubstitution(text=t)], [LaunchConfiguration('v')],
                            [TextSubstitution(text=t[:cut]), TextSubstitution(text=t[cut:])]):
                    agree(lambda: T.perform_typed_substitution(ctx, sub, typ), lambda: coerce(t, typ), 'perform_typed_substitution')
                    n = T.normalize_typed_substitution(sub, typ)
                    agree(lambda: T.perform_typed_substitution(ctx, n, typ), lambda: coerce(t, typ), 'normalized')
                n = T.normalize_typed_substitution(sub[0], typ)
                agree(lambda: T.perform_typed_substitution(ctx, n, typ), lambda: coerce(sub[0].text, typ), 'normalized')
        h.case('text', (t, str(typ), s), f)
    for t in texts:
        for typ in TYPES:
            for s in (False, True):
                text_case(t, typ, s)
    values = [0, 1, -1, True, False, 1.0, 0.0, 'x', '', '1', 'true', None, {}, {'a': 1}, (), (1,), b'x', [], [1], [True], [1, True],
              [True, 1], [1.0], [1, 1.0], [1.0, 1], ['a'], ['a', 1], [1, 'a'], [True, 'a'], ['a', True], [1.0, 'a', 2.0], [1, 'a', True],
              ['a', 1, True], [True, 'a', 1], [1, 'a', 2.0], [None], [[1]], [1, None], ['a', None], [1, [1]], object, ['a', 'b'], [0, False], [{}]]
    for v in values:
        for typ in TYPES:
            for s in (False, True):
                def f(v=v, typ=typ, s=s):
                    eq(bool(T.is_instance_of(v, typ, can_be_str=s)), isinst(v, typ, s), 'is_instance_of')
                    eq(bool(T.is_instance_of_valid_type(v, can_be_str=s)), valid(v, s), 'is_instance_of_valid_type')
                h.case('instance', (v, str(typ), s), f)
    for v in [1, 1.0, True, None, [], ['1'], b'1']:
        for typ in TYPES:
            h.case('no text', (v, str(typ)), lambda v=v, typ=typ: raises(TypeError, lambda: T.coerce_to_type(v, typ)))

    def list_case(ts, sc, s):
        def f():
            def ref():
                o = [coerce(t, sc, s) for t in ts]
                if not uniform(o, s):
                    raise Bad
                return o
            agree(lambda: T.coerce_list(list(ts), sc, can_be_str=s), ref, 'coerce_list')
            agree(lambda: T.get_typed_value(list(ts), None if sc is None else List[sc], can_be_str=s), ref, 'get_typed_value')
            if sc is not None:
                raises(TypeError, lambda: T.get_typed_value(list(ts), sc, can_be_str=s), 'list to scalar')
        h.case('list', (ts, str(sc), s), f)
    small = ['1', '0', '2', 'true', 'false', '1.5', 'x', '', '[1]', 'null']
    for _ in range(h.n(400)):
        list_case(tuple(r.choice(small) for _ in range(r.randint(0, 3))), r.choice((None,) + SC), r.random() < .5)

    def mixed(typ):
        items = [r.choice([1, 0, 2, True, False, 1.5, 'x', '1', 'S1', 'Strue', 'Sx', 'S1.5', 'S'])
                 if r.random() < .3 else r.choice(pool) for _ in range(r.randint(1, 3))]

        def f():
            ctx = LaunchContext()
            sub = lambda t: r.choice([lambda: [TextSubstitution(text=t)], lambda: TextSubstitution(text=t),   # noqa: E731
                                      lambda: (TextSubstitution(text=t[:1]), TextSubstitution(text=t[1:]))])()
            vals = [sub(x[1:]) if isinstance(x, str) and x.startswith('S') else x for x in items]
            if all(isinstance(v, (str, launch.Substitution)) for v in vals) and not all(isinstance(v, str) for v in vals):
                return      # documented to be one substitution
            subs = [isinstance(x, str) and x.startswith('S') for x in items]
            plain = {type(x) for x, q in zip(items, subs) if not q}

            def ref():
                if typ is not None and not elem(typ)[1]:
                    raise Bad
                sc = None if typ is None else elem(typ)[0]
                if plain == {int, float}:
                    conv = float
                elif len(plain) > 1:
                    raise Bad
                else:
                    conv = (lambda x: x)
                out = [coerce(x[1:], sc) if q else conv(x) for x, q in zip(items, subs)]
                if not isinst(out, typ):
                    raise Bad
                return out

            def fn():
                n = T.normalize_typed_substitution(r.choice([list, tuple])(vals), typ)
                return T.perform_typed_substitution(ctx, n, typ)
            agree(fn, ref, 'list with substitutions')
        pool_ = items
        h.case('mixed', (pool_, str(typ)), f)
    for _ in range(h.n(1500)):
        pool = r.choice([[1, 2, 'S1', 'S2'], [True, False, 'Strue', 'S0'], [1.5, 2.0, 1, 'S1', 'S1.5'], ['x', '1', 'Sx', 'S'], ['S1', 'S2', 'Strue'],
                         [1, True, 'S1', 'Strue']])
        mixed(r.choice([t for t in TYPES if t is None or t not in SC] * 3 + TYPES))
    for v in [1, 1.5, True, 'x', 0]:
        for typ in TYPES:
            def f(v=v, typ=typ):
                def ref():
                    if typ is not None and not isinst(v, typ):
                        raise Bad
                    return v
                agree(lambda: T.normalize_typed_substitution(v, typ), ref, 'normalize')
                agree(lambda: T.perform_typed_substitution(LaunchContext(), v, typ), ref, 'perform')
            h.case('scalar', (v, str(typ)), f)
    for bad in (None, b'x', {}, {1: 2}, object, [1], ['a', 1]):
        for good in ([], [1], ['a'], [1.5], [True], [TextSubstitution(text='1')]):
            for typ in TYPES:
                for vals in (good + [bad], [bad] + good):
                    h.case('invalid item', (str(bad), len(good), str(good)[:9], str(typ), vals[0] is bad), lambda vals=vals, typ=typ: raises(
                        Exception, lambda: T.perform_typed_substitution(LaunchContext(), T.normalize_typed_substitution(vals, typ), typ)))
    for bad in (List, list, bytes, dict, List[bytes]):
        for fn in (lambda b: T.coerce_to_type('1', b), lambda b: T.is_instance_of(1, b), lambda b: T.extract_type(b),
                   lambda b: T.get_typed_value('1', b)):
            h.case('type', str(bad), lambda fn=fn, bad=bad: raises(ValueError, lambda: fn(bad)))
    for n, t in {'str': str, 'bool': bool, 'float': float, 'int': int, 'list_of_str': List[str], 'list_of_bool': List[bool],
                 'list_of_float': List[float], 'list_of_int': List[int], 'yaml': None}.items():
        h.case('identifier', n, lambda n=n, t=t: eq(get_data_type_from_identifier(n), t))
    for n in ('', 'Str', 'list', 'list_of_yaml', 'int '):
        h.case('identifier', n, lambda n=n: raises(ValueError, lambda: get_data_type_from_identifier(n)))
