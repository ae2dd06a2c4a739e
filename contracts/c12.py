"""C12: substitutions evaluate to their documented value."""
import fractions
import math
import os

from .common import *
from launch.substitution import Substitution
from launch.substitutions import (AllSubstitution, AndSubstitution, AnySubstitution, EnvironmentVariable, EqualsSubstitution,
                                  IfElseSubstitution, LaunchConfiguration, LocalSubstitution, NotEqualsSubstitution,
                                  NotSubstitution, OrSubstitution, PathJoinSubstitution, SubstitutionFailure,
                                  TextSubstitution)
from launch.utilities import normalize_to_list_of_substitutions, perform_substitutions, type_utils

U, S = 'launch.utilities.', 'launch.substitutions.'
CtxNote = ('performing a substitution is a function of the substitution and the current configurations; what it does '
           'besides is not modelled',)


# ---------------------------------------------------------------- normalizing and performing lists
class Item(SymObj):
    """A member of a list given as substitutions: a substitution, a text or something else."""

    def vc_isinstance(self, c):
        r = z3.BoolVal(False)
        for x in (c if isinstance(c, tuple) else (c,)):
            if x is Substitution:
                r = Or(r, KIND(self.term) == 0)
            elif x is str:
                r = Or(r, KIND(self.term) == 1)
            else:
                raise Unsupported('class test %r on an item' % (x,))
        return BoolK.wrap(r)


ItemK = ObjK('item', Item)
KIND, TEXTOF = uf('item.kind', IntS, IntS), uf('text_substitution_of', IntS, IntS)


@unit('C12', [U + 'normalize_to_list_of_substitutions_impl:normalize_to_list_of_substitutions'])
def normalize_list():
    quiet()
    E().path.refkind = ItemK
    seq = fresh_seq('items', ItemK, cls=(list, tuple)[choose(2)])
    made = []

    def text_substitution(*, text):
        prove('only texts become text substitutions', isinstance(text, Item) and KIND(text.term) == 1)
        return ItemK.wrap(TEXTOF(text.term))
    use_contract(TextSubstitution, text_substitution)
    good = ForAllPrefix('items', seq, lambda x: And(KIND(x) >= 0, KIND(x) <= 1))
    want = MapFold('normalized', seq, lambda x: If(KIND(x) == 0, x, TEXTOF(x)), ItemK)
    k, r = outcome(do, normalize_to_list_of_substitutions, seq)
    if k == 'raise':
        prove('only something that is neither text nor substitution is an error', Not(good.full))
        prove('the error is a TypeError', isinstance(r, TypeError), repr(r))
        return
    prove('nothing else is accepted', good.full)
    prove('substitutions stay, texts become text substitutions, in order', rt.to_vlist(r).as_term(ItemK) == want.full)


@unit('C12', [U + 'normalize_to_list_of_substitutions_impl:normalize_to_list_of_substitutions',
              S + 'text_substitution:TextSubstitution.__init__', S + 'text_substitution:TextSubstitution.perform',
              S + 'text_substitution:TextSubstitution.text'])
def normalize_single():
    ctx = new_context()
    if choose(2):
        x = fresh_obj('substitution', SubK)
        r = rt.to_vlist(do(normalize_to_list_of_substitutions, x))
        prove('a single substitution', r.items is not None and len(r.items) == 1 and r.items[0] is x)
    else:
        t = fresh_str('text')
        r = rt.to_vlist(do(normalize_to_list_of_substitutions, t))
        prove('one text substitution', r.items is not None and len(r.items) == 1 and type(r.items[0]) is TextSubstitution)
        prove('it expands to the text', StrK.unwrap(do(r.items[0].perform, ctx)) == t.term)
        prove('the text is kept', StrK.unwrap(r.items[0].text) == t.term)


class Traced(SymObj):
    """A substitution that notes that it was performed."""
    py_class = Substitution

    def perform(self, ctx):
        p = E().path
        prove('performed in the given context', ctx is p.ctx)
        p.trace.append(self)
        return StrK.wrap(SUBEVAL(self.term))


TracedK = ObjK('substitution', Traced)


@unit('C12', [U + 'perform_substitutions_impl:perform_substitutions', 'launch:LaunchContext.perform_substitution'],
      assumes=CtxNote)
def perform_list():
    p = E().path
    p.ctx = new_context()
    seq = fresh_seq('substitutions', TracedK)
    p.refkind = TracedK
    p.trace = VList(kind=TracedK, term=Empty(z3.SeqSort(IntS)))
    track(p.trace)
    m = MapFold('texts', seq, lambda x: SUBEVAL(x), StrK)
    # lemma: the identity, mapped over a sequence, is the sequence
    E().assume(MapFold('performed', seq, lambda x: x, TracedK).full == seq.term)
    j = JoinFold('expansion', m)
    r = do(perform_substitutions, p.ctx, seq)
    prove('the expansions are concatenated in order', StrK.unwrap(r) == j.full)
    prove('each substitution is performed exactly once, in order', p.trace.as_term(TracedK) == seq.term)


# ---------------------------------------------------------------- look-ups
def _expand_contracts(ctx):
    use_contract(LUT_NORM, lambda x: x)
    used = []

    def perf(c, x):
        prove('expanded in the given context', c is ctx)
        used.append(x)
        if isinstance(x, Subs):
            return StrK.wrap(expand(x, ctx.launch_configurations))
        raise Unsupported('expansion of %r' % type(x))
    use_contract(LUT_PERF, perf)
    return used


class IterSubs(Subs):
    """Substitutions given as a default: one substitution object."""

    def vc_isinstance(self, c):
        cs = c if isinstance(c, tuple) else (c,)
        import collections.abc
        if collections.abc.Iterable in cs and len(cs) == 1:
            return False
        return Substitution in cs


@unit('C12', [S + 'launch_configuration:LaunchConfiguration.__init__', S + 'launch_configuration:LaunchConfiguration.perform'],
      assumes=NORM_ASSUMES)
def launch_configuration():
    ctx, env = context()
    name = fresh_obj('name', SubsK)
    default = fresh_obj('default', ObjK('default', IterSubs)) if choose(2) else None
    use_contract(LUT_NORM, lambda x: x)

    used = []

    def perf(c, x):
        prove('expanded in the given context', c is ctx)
        if isinstance(x, VList):
            if x.items is None or len(x.items) != 1:
                raise Unsupported('expansion of a list')
            x = x.items[0]
        used.append(x)
        if isinstance(x, Subs):
            return StrK.wrap(expand(x, ctx.launch_configurations))
        raise Unsupported('expansion of %r' % type(x))
    use_contract(LUT_PERF, perf)
    s = new(LaunchConfiguration, name, **({} if default is None else {'default': default}))
    havoc(ctx.launch_configurations)
    d = snap(ctx.launch_configurations)
    p, v = d.arrays(StrK, StrK)
    n = expand(name, d)
    k, r = outcome(do, s.perform, ctx)
    if default is not None and any(x is default for x in used):
        prove('the default is expanded only if it is needed', Not(p[n]))
    if k == 'raise':
        prove('an error only without value and default', And(Not(p[n]), z3.BoolVal(default is None)))
        prove('the error is a substitution failure', isinstance(r, SubstitutionFailure), repr(r))
    else:
        prove('the current value, else the expanded default',
              StrK.unwrap(r) == If(p[n], v[n], expand(default, d) if default is not None else StringVal('?')))
        if default is None:
            prove('without default only a set configuration has a value', p[n])
    same('looking up changes nothing', ctx.launch_configurations, d)


@unit('C12', [S + 'launch_configuration:LaunchConfiguration.__init__', S + 'launch_configuration:LaunchConfiguration.perform',
              U + 'normalize_to_list_of_substitutions_impl:normalize_to_list_of_substitutions'])
def default_forms():
    """Defaults of any documented form expand to their text."""
    ctx = new_context()
    ctx.launch_configurations.update({'known': 'kept'})
    s = fresh_obj('substitution', SubK)
    t = SUBEVAL(s.term)
    v, want = [('', StringVal('')), ('abc d', StringVal('abc d')), (5, StringVal('5')), (-1.5, StringVal('-1.5')),
               (True, StringVal('True')), (s, t), ([s, 'x', 7], Concat(t, StringVal('x7'))), (('a', s), Concat(StringVal('a'), t)),
               ([], StringVal(''))][choose(9)]
    r = do(new(LaunchConfiguration, 'unset', default=v).perform, ctx)
    prove('the expanded default', StrK.unwrap(r) == want, repr(v))
    prove('a given value wins', StrK.unwrap(do(new(LaunchConfiguration, 'known', default=v).perform, ctx)) == StringVal('kept'))


@unit('C12', [S + 'environment_variable:EnvironmentVariable.__init__', S + 'environment_variable:EnvironmentVariable.perform'],
      assumes=NORM_ASSUMES)
def environment_variable():
    ctx, env = context()
    used = _expand_contracts(ctx)
    name = fresh_obj('name', SubsK)
    default = fresh_obj('default', SubsK) if choose(2) else None
    s = new(EnvironmentVariable, name, **({} if default is None else {'default_value': default}))
    havoc(env)
    d, e = snap(ctx.launch_configurations), snap(env)
    p, v = e.arrays(StrK, StrK)
    n = expand(name, d)
    k, r = outcome(do, s.perform, ctx)
    if default is not None and any(x is default for x in used):
        prove('the default is expanded only if it is needed', Not(p[n]))
    if k == 'raise':
        prove('an error only without value and default', And(Not(p[n]), z3.BoolVal(default is None)))
        prove('the error is a substitution failure', isinstance(r, SubstitutionFailure), repr(r))
    else:
        prove('the current value, else the expanded default',
              StrK.unwrap(r) == If(p[n], v[n], expand(default, d) if default is not None else StringVal('?')))
        if default is None:
            prove('without default only a set variable has a value', p[n])
    same('looking up changes no variable', env, e)


@unit('C12', [S + 'local_substitution:LocalSubstitution.__init__', S + 'local_substitution:LocalSubstitution.perform'])
def local():
    ctx = new_context()
    a, b, c = fresh_str('a'), fresh_str('b'), fresh_str('c')
    do(ctx.extend_globals, {'x': a, 'y': b})
    m = choose(3)
    s = new(LocalSubstitution, ('x', 'y', 'missing')[m])
    if choose(2):
        k, r = outcome(do, s.perform, ctx)
        if m < 2:
            prove('the current global', k == 'ok' and StrK.unwrap(r) == (a, b)[m].term)
    do(ctx.extend_locals, {'x': c})
    k, r = outcome(do, s.perform, ctx)
    if m < 2:
        prove('the current value, locals before globals', k == 'ok' and StrK.unwrap(r) == (c, b)[m].term)
    else:
        prove('an absent local is an error', k == 'raise' and isinstance(r, AttributeError), repr(r))


# ---------------------------------------------------------------- booleans
VALID = uf('is_boolean_text', IntS, CfgS[0], CfgS[1], BoolS)
TRUTH = uf('truth_of_text', IntS, CfgS[0], CfgS[1], BoolS)
BOOL = ('perform_typed_substitution(ctx, x, bool) is the truth value documented for the expansion of x, or a TypeError or '
        'ValueError (C13)',)


def _bools(ctx):
    def typed(c, x, typ):
        prove('expanded in the given context, as a boolean', c is ctx and typ is bool)
        d = ctx.launch_configurations.arrays(StrK, StrK)
        if not isinstance(x, Subs):
            raise Unsupported('truth of %r' % type(x))
        if not E().branch(VALID(x.term, *d)):
            if choose(2):
                raise TypeError('not a boolean')
            raise ValueError('not a boolean')
        return BoolK.wrap(TRUTH(x.term, *d))
    use_contract(type_utils.perform_typed_substitution, typed)
    a = ctx.launch_configurations.arrays(StrK, StrK)
    return lambda x: VALID(getattr(x, 'term', x), *a), lambda x: TRUTH(getattr(x, 'term', x), *a)


def _check(k, r, valid, truth):
    if k == 'raise':
        prove('an error only if an operand is not a boolean text', Not(valid))
        prove('the error is a substitution failure', isinstance(r, SubstitutionFailure), repr(r))
        return
    prove('a result only if all operands are boolean texts', valid)
    prove('the truth table', StrK.unwrap(r) == If(truth, StringVal('true'), StringVal('false')))


B = S + 'boolean_substitution:'


@unit('C12', [B + c + m for c in ('NotSubstitution', 'AndSubstitution', 'OrSubstitution') for m in ('.__init__', '.perform')],
      assumes=NORM_ASSUMES + BOOL)
def not_and_or():
    ctx, env = context()
    _expand_contracts(ctx)
    x, y = fresh_obj('left', SubsK), fresh_obj('right', SubsK)
    m = choose(3)
    s = new(NotSubstitution, x) if m == 0 else new(AndSubstitution, x, y) if m == 1 else new(OrSubstitution, x, y)
    havoc(ctx.launch_configurations)
    ok, tr = _bools(ctx)
    k, r = outcome(do, s.perform, ctx)
    if m == 0:
        _check(k, r, ok(x), Not(tr(x)))
    elif m == 1:
        _check(k, r, And(ok(x), ok(y)), And(tr(x), tr(y)))
    else:
        _check(k, r, And(ok(x), ok(y)), Or(tr(x), tr(y)))


@unit('C12', [B + c + m for c in ('AnySubstitution', 'AllSubstitution') for m in ('.__init__', '.perform')],
      assumes=NORM_ASSUMES + BOOL, budget=120)
def any_all():
    """Any number of operands."""
    ctx, env = context()
    _expand_contracts(ctx)
    E().path.refkind = SubsK
    args = fresh_seq('operands', SubsK, cls=tuple)
    m = choose(2)
    ok, tr = _bools(ctx)
    C = MapFold('operands', args, lambda x: x, SubsK)
    E().assume(C.full == args.term)
    valid = ForAllPrefix('valid', args, ok)
    truths = MapFold('truths', args, tr, BoolK)
    every = ForAllPrefix('all', args, tr)
    none = ForAllPrefix('none', args, lambda x: Not(tr(x)))

    def folds(q):
        if q.kind is BoolK:
            a, n = ForAllPrefix('all!', q, lambda x: x), ForAllPrefix('none!', q, lambda x: Not(x))
            # lemma: a property of the mapped members is the mapped property of the members
            E().assume(Implies(q.term == truths.full, And(a.full == every.full, n.full == none.full)))
    E().path.seq_hooks.append(folds)
    s = do((AnySubstitution, AllSubstitution)[m], *rt.star(args))
    k, r = outcome(do, s.perform, ctx)
    _check(k, r, valid.full, (Not(none.full), every.full)[m])


@unit('C12', [S + 'if_else_substitution:IfElseSubstitution.__init__', S + 'if_else_substitution:IfElseSubstitution.perform'],
      assumes=NORM_ASSUMES + BOOL)
def if_else():
    ctx, env = context()
    _expand_contracts(ctx)
    c = fresh_obj('condition', SubsK)
    a, b = fresh_obj('if', SubsK), fresh_obj('else', SubsK)
    s = new(IfElseSubstitution, c, a, b)
    havoc(ctx.launch_configurations)
    d = ctx.launch_configurations
    ok, tr = _bools(ctx)
    k, r = outcome(do, s.perform, ctx)
    if k == 'raise':
        prove('an error only if the condition is not a boolean text', Not(ok(c)))
        prove('the error is a substitution failure', isinstance(r, SubstitutionFailure), repr(r))
        return
    prove('a result only for a boolean text', ok(c))
    prove('the chosen alternative', StrK.unwrap(r) == If(tr(c), expand(a, d), expand(b, d)))


# ---------------------------------------------------------------- comparison
class Operand(Subs):
    """Substitutions given to a comparison."""

    def vc_isinstance(self, c):
        import collections.abc
        cs = c if isinstance(c, tuple) else (c,)
        return Substitution in cs


LOWER = uf('str.lower', StrS, StrS)
FOK, FVAL = uf('float.ok', StrS, BoolS), uf('float.val', StrS, z3.RealSort())


def CLOSE(a, b, rel='1/1000000000', tol=0):
    d, w = z3.If(a >= b, a - b, b - a), lambda v: z3.If(v >= 0, v, -v)
    rel = rel if z3.is_expr(rel) else z3.RealVal(rel)
    return Or(a == b, d <= rel * w(a), d <= rel * w(b), d <= tol)


def isclose(a, b, *, rel_tol=None, abs_tol=0.0):
    def num(v):
        return z3.RealVal(str(fractions.Fraction(repr(v)))) if type(v) in (int, float) else RealK.unwrap(v)
    return BoolK.wrap(CLOSE(num(a), num(b), *(['1/1000000000'] if rel_tol is None else [num(rel_tol)]), num(abs_tol)))


def one_of(n, *lits):
    return Or(*[n == StringVal(x) for x in lits])


def equal_texts(x, y):
    isb = lambda t: one_of(LOWER(t), 'true', 'false', '1', '0')   # noqa: E731
    tr = lambda t: one_of(LOWER(t), 'true', '1')   # noqa: E731
    return If(And(isb(x), isb(y)), tr(x) == tr(y), If(And(FOK(x), FOK(y)), CLOSE(FVAL(x), FVAL(y)), x == y))


Q = S + 'equals_substitution:'


@unit('C12', [Q + 'EqualsSubstitution.__init__', Q + 'EqualsSubstitution.perform', Q + '_str_is_bool', Q + '_str_is_float',
              S + 'not_equals_substitution:NotEqualsSubstitution.__init__', S + 'not_equals_substitution:NotEqualsSubstitution.perform'],
      assumes=NORM_ASSUMES + ('float(text): some real number (nan, inf and rounding: bounded cases)', 'math.isclose: its definition over the real numbers', 'str.lower: uninterpreted'))
def comparison():
    ctx, env = context()
    _expand_contracts(ctx)
    k = ObjK('operand', Operand)
    x, y = fresh_obj('left', k), fresh_obj('right', k)
    m = choose(2)
    s = new((EqualsSubstitution, NotEqualsSubstitution)[m], x, y)
    havoc(ctx.launch_configurations)
    d = ctx.launch_configurations

    use_contract(math.isclose, isclose)
    eq = equal_texts(expand(x, d), expand(y, d))
    r = do(s.perform, ctx)
    prove('equal truth values, close numbers or equal texts',
          StrK.unwrap(r) == If(Not(eq) if m else eq, StringVal('true'), StringVal('false')))


@unit('C12', [Q + 'EqualsSubstitution.__init__', Q + 'EqualsSubstitution.perform'])
def comparison_of_values():
    """Plain values are compared through their text; None is the empty text, booleans are true and false."""
    ctx = new_context()
    vals = [(None, ''), (True, 'true'), (False, 'false'), (3, '3'), (1.5, '1.5'), ('x', 'x'), ('', ''), ('True', 'True')]
    a, ta = vals[choose(len(vals))]
    t = fresh_str('text')

    class T(Substitution):
        def perform(self, c):
            return t
    use_contract(math.isclose, isclose)
    z = StringVal(ta)
    E().assume(LOWER(z) == StringVal(ta.lower()))
    E().assume(FOK(z) == z3.BoolVal(ta in ('3', '1.5')))
    E().assume(FVAL(StringVal('3')) == 3)
    E().assume(FVAL(StringVal('1.5')) == z3.RealVal('1.5'))
    if choose(2):
        r, eq = do(new(EqualsSubstitution, a, [T()]).perform, ctx), equal_texts(z, t.term)
    else:
        r, eq = do(new(EqualsSubstitution, T(), a).perform, ctx), equal_texts(t.term, z)
    prove('compared through its text', StrK.unwrap(r) == If(eq, StringVal('true'), StringVal('false')), repr(a))


# ---------------------------------------------------------------- paths
PJ = uf('os.path.join', z3.SeqSort(StrS), StrS)


@unit('C12', [S + 'path_join_substitution:PathJoinSubstitution.__init__', S + 'path_join_substitution:PathJoinSubstitution.perform'],
      assumes=NORM_ASSUMES + CtxNote + ('os.path.join(*parts) joins with the platform separator',))
def path_join():
    p = E().path
    p.ctx = new_context()
    use_contract(LUT_NORM, lambda x: x)
    seq = fresh_seq('parts', TracedK)
    E().assume(Length(seq.term) > 0)
    p.refkind = TracedK
    p.trace = VList(kind=TracedK, term=Empty(z3.SeqSort(IntS)))
    track(p.trace)
    m = MapFold('texts', seq, lambda x: SUBEVAL(x), StrK)
    # lemma: the identity, mapped over a sequence, is the sequence
    E().assume(MapFold('performed', seq, lambda x: x, TracedK).full == seq.term)

    def join(*a):
        return StrK.wrap(PJ(rt.to_vlist(rt.vararg(a)).as_term(StrK)))
    use_contract(os.path.join, join)
    s = new(PathJoinSubstitution, seq)
    prove('nothing is expanded early', p.trace.as_term(TracedK) == Empty(z3.SeqSort(IntS)))
    r = do(s.perform, p.ctx)
    prove('the expanded parts, in order, joined as a path', StrK.unwrap(r) == PJ(m.full))
    prove('each part is expanded exactly once, in order', p.trace.as_term(TracedK) == seq.term)


# ---------------------------------------------------------------- what lies outside
import launch.substitutions.anon_name as AN           # noqa: E402
import launch.substitutions.command as CO             # noqa: E402
import launch.substitutions.file_content as FC        # noqa: E402
import launch.substitutions.find_executable as FE     # noqa: E402
import launch.substitutions.launch_log_dir as LD      # noqa: E402
import launch.substitutions.python_expression as PE   # noqa: E402
import subprocess                                     # noqa: E402
import sys                                            # noqa: E402
from launch.frontend import expose                    # noqa: E402
from launch.substitutions import (AnonName, Command, FileContent, FindExecutable, LaunchLogDir, PythonExpression,   # noqa: E402
                                  ThisLaunchFile, ThisLaunchFileDir)

SPLIT = uf('shlex.split', StrS, z3.SeqSort(StrS))


@unit('C12', [S + 'anon_name:AnonName.__init__', S + 'anon_name:AnonName.perform'],
      assumes=NORM_ASSUMES + ('compute_name: some text (unit anon_text)', 'no configuration is named anon...: they belong to AnonName'))
def anon_name():
    ctx, env = context()
    _expand_contracts(ctx)
    cfg = ctx.launch_configurations
    p, v = cfg.arrays(StrK, StrK)
    n = z3.String('some_name')
    E().assume(z3.ForAll([n], Not(p[Concat(StringVal('anon'), n)])))
    made = []

    def compute(self, name):
        made.append((StrK.unwrap(name), fresh_str('made')))
        return made[-1][1]
    use_contract(AnonName.compute_name, compute)
    names = [fresh_obj('name', SubsK), fresh_obj('other name', SubsK)]
    subs = [new(AnonName, x) for x in names]
    d = snap(cfg)
    texts = [expand(x, d) for x in names]
    # what a name is does not depend on other anonymous names
    use_contract(LUT_PERF, lambda c, x: StrK.wrap(texts[[i for i, y in enumerate(names) if y is x][0]]))
    a = StrK.unwrap(do(subs[0].perform, ctx))
    prove('a new name is made from the expanded text', len(made) == 1 and And(made[0][0] == texts[0], a == made[0][1].term))
    b = StrK.unwrap(do(subs[1].perform, ctx))
    again = len(made) == 1
    prove('another text gets another name, the same text the same one',
          And(texts[0] == texts[1], b == a) if again else And(texts[0] != texts[1], made[1][0] == texts[1], b == made[1][1].term))
    before = len(made)
    for s, t in zip(subs, (a, b)):
        prove('the name of a text stays', And(StrK.unwrap(do(s.perform, ctx)) == t, z3.BoolVal(len(made) == before)))
    q, w = cfg.arrays(StrK, StrK)
    m = z3.String('any_configuration')
    prove('other configurations stay', z3.ForAll([m], Implies(Not(z3.PrefixOf(StringVal('anon'), m)), And(q[m] == p[m], Implies(p[m], w[m] == v[m])))))


@unit('C12', [S + 'command:Command.__init__', S + 'command:Command.perform'],
      assumes=NORM_ASSUMES + ('subprocess.run runs the command and returns its code and the streams asked for; FileNotFoundError',
                              'shlex.split: uninterpreted; POSIX'))
def command():
    ctx, env = context()
    _expand_contracts(ctx)
    x, e = fresh_obj('command', SubsK), fresh_obj('on_stderr', SubsK)
    mode = ('fail', 'ignore', 'warn', 'capture', None)[choose(5)]
    s = new(Command, x, on_stderr=e) if mode else new(Command, x)
    havoc(ctx.launch_configurations)
    d = ctx.launch_configurations
    what = expand(e, d) if mode else None
    if mode is None:
        use_contract(LUT_PERF, lambda c, y: y if isinstance(y, str) else StrK.wrap(expand(y, d)))
    out, err, both, rc = fresh_str('stdout'), fresh_str('stderr'), fresh_str('both'), fresh_int('return code')
    missing = bool(choose(2))
    runs, warned = [], []

    class Result(Fake):
        returncode = rc

    def run(cmd, *, stdout=None, stderr=None, universal_newlines=False, text=False, shell=False, **k):
        if k:
            raise Unsupported('arguments of subprocess.run: %s' % k)
        runs.append(1)
        prove('the words of the expanded command are run', And(z3.BoolVal(not shell),
              rt.to_vlist(cmd).as_term(StrK) == SPLIT(expand(x, d))))
        prove('the output is read as text', stdout == subprocess.PIPE and (universal_newlines or text) is True)
        prove('the standard error is apart or captured', stderr in (subprocess.PIPE, subprocess.STDOUT))
        if missing:
            raise FileNotFoundError('command')
        r = Result()
        r.stdout, r.stderr = (both, None) if stderr == subprocess.STDOUT else (out, err)
        return r
    patch(CO, 'subprocess', Facade(subprocess, run=run))
    patch(CO, 'shlex', Facade(CO.shlex, split=lambda t: VList(kind=StrK, term=SPLIT(StrK.unwrap(t)))))

    class Log(Fake):
        def warning(self, m):
            warned.append(m)
    use_contract(launch.logging.get_logger, lambda *a: Log())
    k, r = outcome(do, s.perform, ctx)
    if k == 'raise':
        prove('the error is a substitution failure', isinstance(r, SubstitutionFailure), repr(r))
    is_ = lambda m: what == StringVal(m) if mode else z3.BoolVal(m == 'fail')   # noqa: E731
    known = Or(*[is_(m) for m in ('fail', 'ignore', 'warn', 'capture')])
    noisy = err.term != StringVal('')
    bad = Or(Not(known), z3.BoolVal(missing), rc.term != 0, And(is_('fail'), noisy))
    prove('it fails exactly if the command is not found or fails, or has errors that count', bad == (k == 'raise'))
    if k == 'ok':
        prove('run once', len(runs) == 1)
        prove('the value is the output, with the errors if captured', StrK.unwrap(r) == If(is_('capture'), both.term, out.term))
        prove('a warning exactly if asked for', And(is_('warn'), noisy) == bool(warned))


@unit('C12', [S + 'file_content:FileContent.__init__', S + 'file_content:FileContent.perform',
              S + 'find_executable:FindExecutable.__init__', S + 'find_executable:FindExecutable.perform',
              S + 'launch_log_dir:LaunchLogDir.__init__', S + 'launch_log_dir:LaunchLogDir.perform'],
      assumes=NORM_ASSUMES + ('open(path).read(): the content of the file or FileNotFoundError', 'osrf_pycommon which: a path or None'))
def files():
    ctx, env = context()
    _expand_contracts(ctx)
    x = fresh_obj('name', SubsK)
    m = choose(3)
    s = new(FileContent, x) if m == 0 else new(FindExecutable, name=x) if m == 1 else new(LaunchLogDir)
    havoc(ctx.launch_configurations)
    t = expand(x, ctx.launch_configurations)
    there = bool(choose(2))
    value = fresh_str('value')
    open_ = []

    class File(Fake):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            open_.remove(self)

        def close(self):
            open_.remove(self)

        def read(self, n=-1):
            prove('read while it is open, completely', self in open_ and n == -1)
            return value

    def opener(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        prove('the text of the file is read as it is', mode in ('r', 'rt') and errors in (None, 'strict') and newline is None,
              (mode, errors, newline))
        prove('the file of the expanded path', StrK.unwrap(path) == t)
        if not there:
            raise FileNotFoundError('no file')
        open_.append(File())
        return open_[-1]

    def which(name):
        prove('the executable of the expanded name', StrK.unwrap(name) == t)
        return value if there else None
    patch(FC, 'open', opener)
    patch(FE, 'which', which)

    class Conf(Fake):
        log_dir = value
    patch(LD, 'launch_logging_config', Conf())
    k, r = outcome(do, s.perform, ctx)
    prove('a failure exactly if there is no such thing', (k == 'raise') == (m < 2 and not there), repr(r))
    if k == 'raise':
        prove('the error is a substitution failure', isinstance(r, SubstitutionFailure), repr(r))
    else:
        prove('the content, path or directory', StrK.unwrap(r) == value.term)
    prove('files are closed', not open_)


@unit('C12', [S + 'this_launch_file:ThisLaunchFile.perform', S + 'this_launch_file_dir:ThisLaunchFileDir.perform'])
def this_file():
    ctx = new_context()
    f, d = fresh_str('file'), fresh_str('directory')
    which = choose(4)
    glob = {}
    if which & 1:
        glob['current_launch_file_path'] = f
    if which & 2:
        glob['current_launch_file_directory'] = d
    do((ctx.extend_locals, ctx.extend_globals)[choose(2)], glob)
    for cls, bit, want in ((ThisLaunchFile, 1, f), (ThisLaunchFileDir, 2, d)):
        k, r = outcome(do, new(cls).perform, ctx)
        if which & bit:
            prove('the launch file being visited', k == 'ok' and StrK.unwrap(r) == want.term, repr(r))
        else:
            prove('outside of a launch file it fails', k == 'raise' and isinstance(r, SubstitutionFailure), repr(r))


@unit('C12', [S + 'python_expression:PythonExpression.__init__', S + 'python_expression:PythonExpression.perform'],
      assumes=NORM_ASSUMES + ('eval(text, {}, names): the value of the expression with those names', 'importlib.import_module'))
def python_expression():
    ctx, env = context()
    _expand_contracts(ctx)
    x = fresh_obj('expression', SubsK)
    import math as math_module
    import re as re_module
    mods = [None, [], ['math'], ['re'], ['re', 'math', 'os.path']][choose(5)]
    real = {'math': math_module, 're': re_module, 'os.path': os.path}

    def norm(y):
        if isinstance(y, (list, VList)):
            return VList([new(TextSubstitution, text=z) for z in (y if isinstance(y, list) else y.items)])
        return y
    use_contract(LUT_NORM, norm)
    use_contract(launch.utilities.ensure_argument_type, lambda *a, **k: None)
    s = new(PythonExpression, x, **({} if mods is None else {'python_modules': mods}))
    havoc(ctx.launch_configurations)
    t = expand(x, ctx.launch_configurations)
    calls = []
    value = [fresh_str('value'), 3, 2.5, True, None][choose(5)]
    fails = bool(choose(2))

    def eval_(text, globals_=None, locals_=None):
        calls.append((text, globals_, locals_))
        if fails:
            raise ZeroDivisionError()
        return value
    patch(PE, 'eval', eval_)
    imported = []

    def import_module(name, package=None):
        imported.append(name)
        return real[name]
    patch(PE, 'importlib', Facade(PE.importlib, import_module=import_module))
    k, r = outcome(do, s.perform, ctx)
    want = ['math'] if mods is None else mods
    prove('evaluated once', len(calls) == 1)
    prove('the expanded expression', StrK.unwrap(calls[0][0]) == t)
    names = {}
    for g in calls[0][1:]:
        names.update({kk: g[kk] for kk in g} if isinstance(g, dict) else dict(rt.to_vlist(do(g.items)).items) if g else {})
    names.pop('__builtins__', None)
    spec = {n.split('.')[-1] if n != 'os.path' else os.path.__name__: real[n] for n in want}
    if 'math' in want:
        spec.update({a: b for a, b in vars(math_module).items()})
    wrong = [n for n in set(names) | set(spec) if names.get(n) is not spec.get(n) and not (n.startswith('__'))]
    prove('the names are the modules asked for, and those of math', not wrong, repr(wrong))
    prove('an error of the expression is not hidden', (k == 'raise') == fails and (not fails or isinstance(r, ZeroDivisionError)), repr(r))
    if k == 'ok':
        prove('the text of the value', StrK.unwrap(r) == (value.term if isinstance(value, SymStr) else StringVal(str(value))))


# ---------------------------------------------------------------- launch-file form
import inspect                                        # noqa: E402
import launch.frontend.parse_substitution             # noqa: E402
from launch.substitutions import NotEqualsSubstitution   # noqa: E402
PS = sys.modules['launch.frontend.parse_substitution']

def items_(x):
    return rt.to_vlist(x).items


# name: class, parameters the arguments are for, least number of arguments
FORMS = {
    'anon': (AnonName, ['name'], 1), 'not': (NotSubstitution, ['value'], 1), 'and': (AndSubstitution, ['left', 'right'], 2),
    'or': (OrSubstitution, ['left', 'right'], 2), 'any': (AnySubstitution, None, 0), 'all': (AllSubstitution, None, 0),
    'command': (Command, ['command', 'on_stderr'], 1), 'env': (EnvironmentVariable, ['name', 'default_value'], 1),
    'equals': (EqualsSubstitution, ['left', 'right'], 2), 'not-equals': (NotEqualsSubstitution, ['left', 'right'], 2),
    'file-content': (FileContent, ['path'], 1), 'find-exec': (FindExecutable, ['name'], 1),
    'if': (IfElseSubstitution, ['condition', 'if_value', 'else_value'], 2),
    'var': (LaunchConfiguration, ['variable_name', 'default'], 1), 'launch_log_dir': (LaunchLogDir, [], 0),
    'log_dir': (LaunchLogDir, [], 0), 'eval': (PythonExpression, ['expression', 'python_modules'], 1),
    'filename': (ThisLaunchFile, [], 0), 'dirname': (ThisLaunchFileDir, [], 0)}
MODULES = [('math', ['math']), ('math,re', ['math', 're']), (' os.path , re', ['os.path', 're'])]


@unit('C12', ['launch.frontend.expose:instantiate_substitution'] + sorted(
    {'%s:%s.parse' % (c.__module__, c.__name__) for c, _, _ in FORMS.values() if 'parse' in vars(c)}),
      assumes=('constructors of the substitutions (their own units)', 'any, all: up to four arguments'))
def parsed_forms():
    name = sorted(FORMS)[choose(len(FORMS))]
    cls, params, least = FORMS[name]
    args = [[fresh_obj('argument', SubK)] for _ in range(choose(5))]
    if name == 'eval' and len(args) > 1:
        text, want_modules = MODULES[choose(len(MODULES))]
        args[1] = [new(TextSubstitution, text=text)]
    made, sig = [], inspect.signature(cls.__init__)

    def construct(*a, **k):
        made.append(sig.bind(None, *a, **k))
        made[-1].apply_defaults()
        return made[-1]
    use_contract(cls, construct)
    given = VList(list(args)) if args or choose(2) else None
    k, r = outcome(do, PS.instantiate_substitution, name, *([] if given is None else [given]))
    most = 99 if params is None else len(params)
    prove('an error exactly for too few or too many arguments', (k == 'raise') == (not least <= len(args) <= most), repr(r))
    if k == 'raise':
        return
    prove('one substitution, of the class of that name', len(made) == 1 and r is made[0])

    def same_list(x, y):
        return x is y or [*items_(x)] == y
    got = dict(r.arguments)
    got.pop('self', None)
    if params is None:
        [v] = got.values()
        prove('all arguments in order', len(v) == len(args) and all(same_list(x, y) for x, y in zip(v, args)))
        return
    for i, p in enumerate(params):
        if i >= len(args):
            prove('what is not given has its default', got[p] is sig.parameters[p].default or got[p] == sig.parameters[p].default)
        elif p == 'python_modules':
            prove('the modules named', [*items_(got[p])] == want_modules, repr(got[p]))
        else:
            prove('the argument for %s' % p, same_list(got[p], args[i]))


@unit('C12', ['launch.frontend.expose:instantiate_substitution'])
def unknown_form():
    k, r = outcome(do, PS.instantiate_substitution, ('nosuch', 'Var', 'vars', '')[choose(4)])
    prove('an unknown name is an error', k == 'raise', repr(r))


@unit('C12', ['launch.frontend.parse_substitution:ExtractSubstitution.' + m for m in ('part', 'value', 'arguments', 'substitution', 'fragment', 'template')]
      + ['launch.frontend.parse_substitution:parse_substitution'],
      assumes=('lark: the tree of the text by the grammar, the transformer\'s method of its rule applied to each node from the leaves',
               'replace_escaped_characters: uninterpreted (bounded cases)', 'up to three arguments of up to three parts'))
def tree():
    ESC = uf('unescaped', StrS, StrS)
    use_contract(PS.replace_escaped_characters, lambda t: StrK.wrap(ESC(StrK.unwrap(t))))
    x = PS.ExtractSubstitution()
    pre = ('', 'single_quoted_', 'double_quoted_')[choose(3)]
    leaf = {'': 'UNQUOTED_', 'single_quoted_': 'SINGLE_QUOTED_', 'double_quoted_': 'DOUBLE_QUOTED_'}[pre]

    def Tok(t, v):
        tok = PS.Token(t, 'token')
        tok.value = v
        return tok
    made = []

    def inst(name, *args):
        made.append((name, args))
        return Made(len(made) - 1)

    class Made(Substitution):
        def __init__(self, i):
            self.i = i
    use_contract(PS.instantiate_substitution, inst)

    def at(rule, *children):
        return do(getattr(x, pre + rule), list(children))

    def is_text(y, t):
        return type(y) is TextSubstitution and bool(y.text.term.eq(ESC(t.term)))

    def piece(rule, kind):
        """A leaf: (result, test that it is right)."""
        if choose(2):
            t = fresh_str('text')
            return at(rule, Tok(leaf + kind, t)), (lambda y: is_text(y, t))
        m = inst('nested')
        return at(rule, m), (lambda y: y is m)

    def same_parts(got, tests):
        got = [*items_(got)]
        return len(got) == len(tests) and all(f(y) for f, y in zip(tests, got))
    if choose(2):
        ps = [piece('fragment', 'STRING') for _ in range(choose(4))]
        r = at('template', *[p for p, _ in ps])
        prove('texts and substitutions in order', same_parts(r, [f for _, f in ps]))
        if not pre:
            v = do(x.value, [r])
            prove('a quoted argument has the parts of its text', same_parts(v, [f for _, f in ps]))
        return
    n = choose(4)
    acc, tests = None, []
    for _ in range(n):
        m = 1 + choose(2)
        ps = [piece('part', 'RSTRING') for _ in range(m)]
        v = at('value', *[p for p, _ in ps])
        acc = at('arguments', v) if acc is None else at('arguments', acc, v)
        tests.append([f for _, f in ps])
    before = len(made)
    r = at('substitution', Tok('IDENTIFIER', 'name'), *([] if acc is None else [acc]))
    prove('one substitution of that name', len(made) == before + 1 and r.i == before and made[-1][0] == 'name')
    got = made[-1][1]
    got = [] if not got or got[0] is None else [*items_(got[0])]
    prove('the arguments in order', len(got) == n and all(same_parts(a, t) for a, t in zip(got, tests)))


@unit('C12', ['launch.frontend.parse_substitution:parse_substitution', 'launch.frontend.parse_substitution:parse_if_substitutions'],
      assumes=('parse_substitution within parse_if_substitutions: a list of substitutions', 'lists of up to three values'))
def parse_if():
    k = choose(6)
    if k == 0:
        r = [*items_(do(PS.parse_substitution, ''))]
        prove('the empty text is an empty text', len(r) == 1 and type(r[0]) is TextSubstitution and r[0].text == '')
        return
    KINDS = ('text', 'sub', 'several', 'int', 'float', 'bool')
    plain = {'int': 3, 'float': 2.5, 'bool': True}
    parsed = {}

    def parse(t):
        return parsed[t]
    use_contract(PS.parse_substitution, parse)

    def value(i):
        kind = KINDS[choose(len(KINDS))]
        if kind in plain:
            return kind, plain[kind], lambda r: r is plain[kind]
        t = 'text %d' % i
        if kind == 'text':
            parsed[t] = [new(TextSubstitution, text='unescaped %d' % i)]
            return kind, t, lambda r: r == 'unescaped %d' % i
        parsed[t] = [fresh_obj('substitution', SubK)] + ([new(TextSubstitution, text='y')] if kind == 'several' else [])
        return kind, t, lambda r: r is parsed[t] or isinstance(r, (list, VList)) and [*items_(r)] == parsed[t]
    if k == 1:
        kind, v, f = value(0)
        prove('a single value: parsed if text, else itself', f(do(PS.parse_if_substitutions, v)))
        return
    vs = [value(i) for i in range(k - 2)]
    mixed = len({kind for kind, _, _ in vs if kind in ('text', 'int', 'float', 'bool')}) > 1
    o, r = outcome(do, PS.parse_if_substitutions, [v for _, v, _ in vs])
    prove('an error exactly if plain values of different types are mixed', (o == 'raise') == mixed, repr(r))
    if o == 'raise':
        prove('a ValueError', isinstance(r, ValueError))
    else:
        r = [*items_(r)]
        prove('the values in order', len(r) == len(vs) and all(f(y) for (_, _, f), y in zip(vs, r)))


@unit('C12', [S + 'anon_name:AnonName.compute_name'], assumes=('socket, os.getpid, random: outside',))
def anon_text():
    r = do(new(AnonName, 'x').compute_name, ('a.b-c:d', 'plain', '')[choose(3)])
    prove('a text that is a legal name', isinstance(r, str) and r.replace('_', '').isalnum(), repr(r))
