"""C03: context locals override globals; saved locals are restored."""
from .common import *
from launch.substitutions import LocalSubstitution

CTX = 'launch.launch_context:LaunchContext.'
READ = [CTX + '_get_combined_locals', CTX + 'get_locals_as_dict', CTX + 'locals', CTX + '_clear_combined_locals_cache']


class St:
    """The model: globals and locals as arrays."""

    def __init__(self, g, l):
        self.g, self.l = g, l

    @property
    def read(self):
        r = snap(self.g)
        r.update(self.l)
        return r


def _any_state():
    ctx = new_context()
    g, l = fresh_dict('globals', StrK, AnyK), fresh_dict('locals', StrK, AnyK)
    base = None
    st = E().fresh('stack', z3.SeqSort(IntS))
    v = VList(kind=RefK, term=st)
    for c in type(ctx).__mro__:
        if '_%s__locals_stack' % c.__name__ in ctx.__dict__:
            object.__setattr__(ctx, '_%s__locals_stack' % c.__name__, v)
            base = v
    _ext(ctx.extend_globals, g)
    _maybe_read(ctx)
    _ext(ctx.extend_locals, l)
    _maybe_read(ctx)
    return ctx, St(snap(g), snap(l)), base, st


def _maybe_read(ctx):
    if choose(2):
        do(ctx.get_locals_as_dict)


def _ext(f, d):
    do(f, d)


def _observe(ctx, st, what=''):
    want = st.read
    got = do(ctx.get_locals_as_dict)
    same('locals read as globals overridden by locals' + what, got, want)
    k, x = outcome(lambda: ctx.locals.probe)
    p, v = want.arrays()
    key = z3.StringVal('probe')
    if k == 'ok':
        prove('a readable local is present' + what, p[key])
        prove('attribute access gives the same value' + what, AnyK.unwrap(x) == v[key])
    else:
        prove('an absent local is an AttributeError' + what, And(BoolVal_(isinstance(x, AttributeError)), Not(p[key])), repr(x))


def BoolVal_(b):
    return z3.BoolVal(bool(b))


@unit('C03', READ + [CTX + 'extend_globals', CTX + 'extend_locals'])
def extensions_visible():
    ctx, st, base, s0 = _any_state()
    _observe(ctx, st, ' (before)')
    d = fresh_dict('ext', StrK, AnyK)
    d0 = snap(d)
    if choose(2):
        do(ctx.extend_globals, d)
        st.g.update(d0)
    else:
        do(ctx.extend_locals, d)
        st.l.update(d0)
    _observe(ctx, st, ' (after an extension)')
    havoc_any(d)              # the extension passed in is not aliased
    _observe(ctx, st, ' (after the caller changes its mapping)')
    if base is not None:
        prove('saved locals untouched', base.as_term(RefK) == s0)


def havoc_any(d):
    d.vc_havoc((StrK, AnyK))


@unit('C03', READ + [CTX + '_push_locals', CTX + '_pop_locals', CTX + 'extend_globals', CTX + 'extend_locals'])
def push_pop():
    ctx, st, base, s0 = _any_state()
    do(ctx._push_locals)
    _observe(ctx, st, ' (after saving)')
    inner = St(snap(st.g), snap(st.l))
    d1, d2 = fresh_dict('ext1', StrK, AnyK), fresh_dict('ext2', StrK, AnyK)
    m = choose(4)
    if m & 1:
        do(ctx.extend_locals, d1)
        inner.l.update(d1)
        _maybe_read(ctx)
    if m & 2:
        do(ctx.extend_globals, d2)
        inner.g.update(d2)
        _maybe_read(ctx)
    _observe(ctx, inner, ' (inside)')
    do(ctx._pop_locals)
    _observe(ctx, St(inner.g, st.l), ' (after restoring)')
    d3 = fresh_dict('ext3', StrK, AnyK)
    do(ctx.extend_locals, d3)
    l3 = snap(st.l)
    l3.update(d3)
    _observe(ctx, St(inner.g, l3), ' (extended after restoring)')
    if base is not None:
        prove('other saved locals untouched', base.as_term(RefK) == s0)


@unit('C03', READ + [CTX + '_push_locals', CTX + '_pop_locals', CTX + 'extend_locals'])
def nested():
    ctx = new_context()
    l = fresh_dict('locals', StrK, AnyK)
    st = St(empty_dict(StrK, AnyK), snap(l))
    do(ctx.extend_locals, l)
    do(ctx._push_locals)
    d1 = fresh_dict('ext1', StrK, AnyK)
    do(ctx.extend_locals, d1)
    l1 = snap(st.l)
    l1.update(d1)
    do(ctx._push_locals)
    do(ctx.extend_locals, fresh_dict('ext2', StrK, AnyK))
    do(ctx._pop_locals)
    _observe(ctx, St(st.g, l1), ' (inner restored)')
    do(ctx.extend_locals, fresh_dict('ext3', StrK, AnyK))
    do(ctx._pop_locals)
    _observe(ctx, st, ' (outer restored)')


@unit('C03', [CTX + '_pop_locals'])
def pop_without_push():
    ctx = new_context()
    g, l = fresh_dict('globals', StrK, AnyK), fresh_dict('locals', StrK, AnyK)
    do(ctx.extend_globals, g)
    do(ctx.extend_locals, l)
    st = St(snap(g), snap(l))
    if choose(2):
        do(ctx._push_locals)
        do(ctx._pop_locals)
    k, x = outcome(do, ctx._pop_locals)
    prove('RuntimeError', k == 'raise' and isinstance(x, RuntimeError), repr((k, x)))
    _observe(ctx, st, ' (unchanged)')


@unit('C03', [CTX + 'locals'])
def read_only():
    ctx = new_context()
    l = fresh_dict('locals', StrK, AnyK)
    do(ctx.extend_locals, l)
    st = St(empty_dict(StrK, AnyK), snap(l))
    v = fresh_any('v')

    def put():
        ctx.locals.probe = v
    k, x = outcome(put)
    prove('locals cannot be assigned', k == 'raise' and isinstance(x, AttributeError), repr((k, x)))
    _observe(ctx, st, ' (unchanged)')
