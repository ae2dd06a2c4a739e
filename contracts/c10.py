"""C10: included launch files receive their arguments and required ones are checked."""
import os

from .common import *
from launch import LaunchDescription, LaunchDescriptionSource
from launch.actions import DeclareLaunchArgument, IncludeLaunchDescription, SetLaunchConfiguration

I = 'launch.actions:IncludeLaunchDescription.'
SRC = 'launch:LaunchDescriptionSource.'
SETLC = uf('set_launch_configuration', IntS, IntS, IntS)
NAME, COND, HASDEF, DESC = (uf('decl.' + n, IntS, s) for n, s in
                            (('name', StrS), ('conditional', BoolS), ('has_default', BoolS), ('description', StrS)))
SS = z3.SeqSort(StrS)
NAMES, KNOWN = uf('include.names', IntS, SS), uf('include.names_known', IntS, BoolS)
CS = z3.SeqSort(IntS)
CHAINNAMES, CHAINKNOWN = uf('chain.names', CS, SS), uf('chain.known', CS, BoolS)
ABS, EXISTS, DIRNAME = uf('abspath', StrS, StrS), uf('exists', StrS, BoolS), uf('dirname', StrS, StrS)
KIND_OF_FILE = {k: uf(k, StrS, BoolS) for k in ('isfile', 'isdir', 'islink')}


class Decl(SymObj):
    py_class = DeclareLaunchArgument

    @property
    def name(self):
        E().path.named = self
        return StrK.wrap(NAME(self.term))

    @property
    def _conditionally_included(self):
        return BoolK.wrap(COND(self.term))

    @property
    def default_value(self):
        return [] if E().branch(HASDEF(self.term)) else None

    @property
    def description(self):
        return StrK.wrap(DESC(self.term))


class Incl(SymObj):
    py_class = IncludeLaunchDescription

    def _try_get_arguments_names_without_context(self):
        if E().branch(KNOWN(self.term)):
            return VList(kind=StrK, term=NAMES(self.term))
        return None


class SetLC(SymObj):
    """SetLaunchConfiguration(k, v), known through its contract (C11)."""
    py_class = SetLaunchConfiguration


DeclK, InclK, SetK = ObjK('declaration', Decl), ObjK('include', Incl), ObjK('setlc', SetLC)


class _ChainK(Kind):
    """An include chain: None, or the non-empty list of includes that lead to a declaration."""
    name, sort = 'chain', CS

    def wrap(self, term):
        if E().branch(z3.Length(term) == 0):
            return None
        return VList(kind=InclK, term=term)


ChainK = _ChainK()
PairK = TupK(DeclK, ChainK, name='declared')


class Source(SymObj):
    py_class = LaunchDescriptionSource

    def get_launch_description(self, ctx):
        prove('the description is loaded in the context of the include', ctx is E().path.ctx)
        E().path.loads += 1
        E().path.loaded_locals = ctx.get_locals_as_dict()
        return E().path.ld

    def try_get_launch_description_without_context(self):
        return E().path.ld if E().branch(E().path.known.term) else None

    @property
    def location(self):
        return E().path.location


class Description(Fake):
    __class__ = LaunchDescription

    def get_launch_arguments_with_include_launch_description_actions(self, conditional_inclusion=False):
        prove('all declarations are considered as if unconditional', conditional_inclusion is False)
        return VList(kind=PairK, term=E().path.declared)


def fake_paths():
    real = os.path
    f = Facade(real, abspath=lambda p: StrK.wrap(ABS(V.sterm(p))), exists=lambda p: BoolK.wrap(EXISTS(V.sterm(p))),
               dirname=lambda p: StrK.wrap(DIRNAME(V.sterm(p))), **{
                   k: (lambda p, f=f: BoolK.wrap(And(EXISTS(V.sterm(p)), f(V.sterm(p))))) for k, f in KIND_OF_FILE.items()})
    patch_global('os', Facade(os, path=f))


def _setup(nargs=None):
    fake_paths()
    ctx = new_context()
    ctx.launch_configurations.update(fresh_dict('configs'))
    expand_contracts(ctx)
    p = E().path
    p.ctx, p.loads, p.ld = ctx, 0, Description()
    p.location = fresh_str('location')
    p.known = fresh_bool('known')
    src = fresh_obj('source', ObjK('source', Source))
    return ctx, src


def _k(x, kk):
    return kk.sort.accessor(0, 0)(x)


def _v(x, kk):
    return kk.sort.accessor(0, 1)(x)


def _execute(given):
    ctx, src = _setup()
    use_contract(SetLaunchConfiguration, lambda k, v: SetK.wrap(SETLC(SubsK.unwrap(k), SubsK.unwrap(v))))
    d0 = snap(ctx.launch_configurations)
    l0 = fresh_dict('locals', StrK, AnyK)
    do(ctx.extend_locals, l0)
    if given:
        kk = TupK(SubsK, SubsK)
        S = fresh_seq('arguments', kk)
        M = MapFold('sets', S, lambda x: SETLC(_k(x, kk), _v(x, kk)), SetK)
        N = MapFold('names', S, lambda x: expand(_k(x, kk), d0), StrK)
        sets, names = M.full, N.full
        kw = dict(launch_arguments=S)
    else:
        sets, names = Empty(CS), Empty(SS)
        kw = {} if choose(2) else dict(launch_arguments=None)
    D = E().path.declared = E().fresh('declared', z3.SeqSort(PairK.sort))
    E().path.nonneg = True
    E().assume(CHAINNAMES(Empty(CS)) == Empty(SS))
    E().assume(CHAINKNOWN(Empty(CS)))

    def ok(x):
        a, c = PairK.sort.accessor(0, 0)(x), PairK.sort.accessor(0, 1)(x)
        return Or(COND(a), HASDEF(a), Not(CHAINKNOWN(c)), z3.Contains(Concat(names, CHAINNAMES(c)), Unit(NAME(a))))

    Q = ForAllPrefix('given', VList(kind=PairK, term=D), ok)

    def hook(s):
        if s.kind is InclK:
            f = Fold('chain.names', s, Empty(SS), lambda a, i: If(KNOWN(i), Concat(a, NAMES(i)), a))
            q = ForAllPrefix('chain.known', s, KNOWN)
            E().assume(f.full == CHAINNAMES(s.term))
            E().assume(q.full == CHAINKNOWN(s.term))
    E().path.seq_hooks.append(hook)
    a = new(IncludeLaunchDescription, src, **kw)
    k, r = outcome(do, a.execute, ctx)
    same('executing the include itself changes no configuration', ctx.launch_configurations, d0)
    if k == 'raise':
        prove('it only fails because a required argument is not given', Not(Q.full), repr(r)[:200])
        prove('the failure is a RuntimeError', isinstance(r, RuntimeError), repr(r)[:200])
        msg = r.args[0] if getattr(r, 'args', None) else ''
        t = V.sterm(msg)
        if 'fmt' not in str(t):
            prove('the error names the argument', z3.Contains(t, NAME(E().path.named.term)))
        return
    prove('it fails if a required argument is not given', Q.full)
    prove('the description is loaded once', E().path.loads == 1)
    prove('the arguments are set in order, then the description is visited',
          rt.to_vlist(r).as_term(RefK) == Concat(sets, Unit(RefK.unwrap(E().path.ld))))
    loc = E().path.location.term
    w = snap(l0)
    w['current_launch_file_path'] = SymStr(ABS(loc))
    w['current_launch_file_directory'] = SymStr(If(EXISTS(ABS(loc)), DIRNAME(ABS(loc)), loc))
    same('the included file and its directory are the current ones', do(ctx.get_locals_as_dict), w)


LISTED = 'LaunchDescription.get_launch_arguments_with_include_launch_description_actions lists the declarations with ' \
         'their include chains (C26)'
T = [I + '__init__', I + 'execute', I + '_get_launch_file', I + '_get_launch_file_directory', I + 'launch_arguments']
OSP = 'os.path.abspath, exists and dirname are functions of the path'


@unit('C10', T, assumes=NORM_ASSUMES + (LISTED, OSP, 'SetLaunchConfiguration(k, v) stores the expansion of v under the '
                                        'expansion of k (C11)'))
def include_with_arguments():
    _execute(True)


@unit('C10', T, assumes=NORM_ASSUMES + (LISTED, OSP))
def include_without_arguments():
    _execute(False)


@unit('C10', [I + '_try_get_arguments_names_without_context'], assumes=NORM_ASSUMES)
def names_beforehand():
    ctx, src = _setup()
    kk = TupK(SubsK, SubsK)
    S = fresh_seq('arguments', kk)
    a = new(IncludeLaunchDescription, src, launch_arguments=S)
    fails = uf('expansion_fails', IntS, BoolS)
    value = uf('expand_without_context', IntS, StrS)
    N = MapFold('names', S, lambda x: value(_k(x, kk)), StrK)
    Q = ForAllPrefix('expandable', S, lambda x: Not(fails(_k(x, kk))))
    seen = []

    def perf(c, x):
        prove('names are expanded without the context of the launch', c is not ctx and len(c.launch_configurations) == 0)
        if E().branch(fails(x.term)):
            raise RuntimeError('cannot expand')
        return StrK.wrap(value(x.term))
    use_contract(LUT_PERF, perf)
    r = do(a._try_get_arguments_names_without_context)
    if r is None:
        prove('names are unknown only if one cannot be expanded', Not(Q.full))
    else:
        prove('all names are known', Q.full)
        prove('the names are the expanded ones, in order', rt.to_vlist(r).as_term(StrK) == N.full)


@unit('C10', [I + 'get_sub_entities'], assumes=())
def sub_entities():
    ctx, src = _setup()
    a = new(IncludeLaunchDescription, src)
    r = rt.to_vlist(do(a.get_sub_entities))
    if case(E().path.known):
        prove('the included description is the only sub-entity', len(r.items) == 1 and r.items[0] is E().path.ld)
    else:
        prove('nothing is known about an include that cannot be loaded yet', len(r.items) == 0)


class LoadingSource(LaunchDescriptionSource):
    def _get_launch_description(self, location):
        p = E().path
        p.locations.append(location)
        if p.load_fails and E().branch(p.load_fails.pop().term):
            p.failed = True
            raise RuntimeError('cannot load')
        return p.ld


@unit('C10', [SRC + '__init__', SRC + 'get_launch_description', SRC + 'try_get_launch_description_without_context',
              SRC + 'location'], assumes=NORM_ASSUMES)
def source():
    ctx = new_context()
    ctx.launch_configurations.update(fresh_dict('configs'))
    fails = uf('expansion_fails', IntS, BoolS)
    value = uf('expand_without_context', IntS, StrS)
    use_contract(LUT_NORM, lambda x: x)

    def perf(c, x):
        if c is ctx:
            return StrK.wrap(expand(x, ctx.launch_configurations))
        if E().branch(fails(x.term)):
            p.failed = True
            raise RuntimeError('cannot expand')
        return StrK.wrap(value(x.term))
    use_contract(LUT_PERF, perf)
    p = E().path
    p.failed = False
    p.locations, p.load_fails, p.ld = [], [fresh_bool('fails')], Description()
    loc = fresh_obj('location', SubsK)
    given = choose(2)
    d = Description()
    s = new(LoadingSource, d if given else None, location=loc)
    if choose(2):
        k, r = outcome(do, s.try_get_launch_description_without_context)
        prove('looking at a source without a context never fails', k == 'ok', repr(r)[:200])
        if given:
            prove('the given description is the one', r is d and not p.locations)
        else:
            prove('the description, or none exactly if it cannot be loaded', r is (None if p.failed else p.ld))
            if r is not None:
                prove('the location is expanded without a context', p.locations[0].term == value(loc.term))
        return
    if choose(2) and not given:
        do(s.try_get_launch_description_without_context)
        del p.locations[:]
    del p.load_fails[:]
    d0 = snap(ctx.launch_configurations)
    r = do(s.get_launch_description, ctx)
    ctx.launch_configurations.update(fresh_dict('later'))
    r2 = do(s.get_launch_description, ctx)
    prove('the same description every time', r is r2 and r is (d if given else p.ld))
    prove('it is loaded at most once', len(p.locations) == (0 if given else 1))
    if not given:
        prove('it is loaded from the expanded location', StrK.unwrap(p.locations[0]) == expand(loc, d0))
    prove('the location is the expanded one', StrK.unwrap(s.location) == expand(loc, d0))
