"""C06: entity trees are visited depth-first, in order, and no pending work is lost."""
from .common import *
from launch import LaunchDescription, LaunchDescriptionEntity
from launch.utilities.visit_all_entities_and_collect_futures_impl import visit_all_entities_and_collect_futures

V1 = 'launch.utilities.visit_all_entities_and_collect_futures_impl:visit_all_entities_and_collect_futures'
SUBS = uf('sub_entities', IntS, z3.SeqSort(IntS))
HASSUBS = uf('has_sub_entities', IntS, BoolS)
FUT = uf('future', IntS, AnyS)


class Entity(SymObj):
    py_class = LaunchDescriptionEntity

    def visit(self, ctx):
        prove('entities are visited in the given context', ctx is E().path.ctx)
        emit('visit', self)
        if E().branch(HASSUBS(self.term)):
            return VList(kind=EntK, term=SUBS(self.term))
        return None

    def get_asyncio_future(self):
        return AnyK.wrap(FUT(self.term))


EntK = ObjK('entity', Entity)
PairK = TupK(EntK, AnyK, name='pair')
PS = z3.SeqSort(PairK.sort)
VISITS = uf('visits', IntS, z3.SeqSort(EvK.sort))      # everything visited below and including an entity
PAIRS = uf('pairs', IntS, PS)                          # everything collected
PART = uf('pairs_before_error', IntS, PS)                # what was collected when a visit failed
FAILS = uf('visit_fails', IntS, BoolS)
PENDING = uf('all_pending', PS, BoolS)                 # every pair has a future


def pending(p):
    return Not(AnyS.is_none(PairK.sort.accessor(0, 1)(p)))


@unit('C06', [V1], assumes=['the recursive call on a sub-entity obeys the contract being proved (induction on the finite '
                            'tree of visits)',
                            'lemmas: a filter keeps a sequence all of whose elements satisfy the predicate; "all" '
                            'distributes over concatenation'])
def depth_first():
    E().path.refkind = EntK
    ctx = E().path.ctx = new_context()
    root = fresh_obj('root', EntK)
    new_trace()

    given = fresh_seq('given', PairK) if choose(2) else None
    f0 = given.term if given is not None else Empty(PS)
    error = ValueError('visit')
    ghost_all = VList(kind=PairK, term=Empty(PS))            # everything collected by the recursive calls
    log = E().path

    def callee(e, c, futures=None):
        prove('sub-entities are visited in the same context', c is ctx)
        t = EntK.unwrap(e)
        E().path.trace.extend(VList(kind=EvK, term=VISITS(t)))
        fails = E().branch(FAILS(t))
        found = VList(kind=PairK, term=PART(t) if fails else PAIRS(t))
        if futures is not None:
            futures.extend(found)
        ghost_all.extend(found)
        if fails:
            log.lost = futures is None
            raise error
        return found if futures is None else futures
    use_contract(visit_all_entities_and_collect_futures, callee)   # what calls made by the body are checked against
    subs = VList(kind=EntK, term=SUBS(root.term))
    tr0 = evs(ev('visit', root))
    T = Fold('visited', subs, Empty(z3.SeqSort(EvK.sort)), lambda a, s: Concat(a, VISITS(s)))
    own = If(AnyS.is_none(FUT(root.term)), Empty(PS), Unit(PairK.mk(root.term, FUT(root.term))))
    P = Fold('collected', subs, Empty(PS), lambda a, s: Concat(a, PAIRS(s)))
    Q = ForAllPrefix('pending', subs, lambda s: PENDING(PAIRS(s)))
    E().assume(Q.full)                                       # contract of the recursive calls
    E().assume(PENDING(P.full) == Q.full)                    # lemma: all over concatenation
    E().assume(PENDING(Concat(own, P.full)) == PENDING(P.full))
    E().assume(PENDING(own))

    def hook(s):
        if s.kind is PairK or s.term.sort() == PS:
            F = FilterFold('pending.filter', s, pending)
            E().assume(Implies(PENDING(s.term), F.full == s.term))
    E().path.seq_hooks.append(hook)
    body = visit_all_entities_and_collect_futures            # the real body
    k, out = outcome(body, root, ctx) if given is None else outcome(body, root, ctx, given)
    has = HASSUBS(root.term)
    if k == 'raise':
        prove('errors of visits are passed on', out is error, repr(out))
        if given is not None:
            prove('what was collected before an error is kept', given.as_term(PairK) == Concat(f0, own, ghost_all.as_term(PairK)))
            prove('sub-entities pass it on', log.lost is False)
        return
    prove('visited once, then each sub-entity recursively in order',
          E().path.trace.as_term(EvK) == If(has, Concat(tr0, T.full), tr0))
    prove('all pending work is returned in order, exactly once',
          rt.to_vlist(out).as_term(PairK) == Concat(f0, If(has, Concat(own, P.full), own)))
    if given is not None:
        prove('pending work is added to the list given', given.as_term(PairK) == Concat(f0, If(has, Concat(own, P.full), own)))
    else:
        prove('only pending work is returned', PENDING(rt.to_vlist(out).as_term(PairK)))


@unit('C06', [V1], name='leaf_shapes')
def leaf_shapes():
    """Concrete small trees: sub-entities given as list, tuple or None; None of them dropped."""
    E().path.refkind = EntK
    ctx = E().path.ctx = new_context()
    tr = new_trace()
    futs = [fresh_any('fut%d' % i) for i in range(3)]

    class N(Fake):
        def __init__(self, i, subs):
            self.i, self.subs = i, subs

        def visit(self, c):
            prove('context', c is ctx)
            emit('visit', self)
            return self.subs

        def get_asyncio_future(self):
            return futs[self.i]
    a, b = N(1, None), N(2, [])
    root = N(0, (a, b) if choose(2) else VList([a, b]))
    out = do(visit_all_entities_and_collect_futures, root, ctx)
    prove('order', tr.as_term(EvK) == evs(ev('visit', root), ev('visit', a), ev('visit', b)))
    want = Empty(PS)
    from pyvc.values import ref_of
    PK = TupK(RefK, AnyK, name='pair')
    for n, f in zip((root, a, b), futs):
        want = Concat(want, If(AnyS.is_none(f.term), Empty(PS), Unit(PairK.mk(RefK.unwrap(n), f.term))))
    o = rt.to_vlist(out)
    got = o.as_term(PK if o.items is not None else PairK)
    prove('pending work in order', got == want)


@unit('C06', ['launch.launch_description:LaunchDescription.visit',
              'launch.launch_description:LaunchDescription.__init__'])
def description():
    E().path.refkind = EntK
    ctx = new_context()
    ents = fresh_seq('entities', EntK)
    ld = new(LaunchDescription, ents, deprecated_reason=fresh_str('why') if choose(2) else None)
    r = do(ld.visit, ctx)
    prove('a launch description yields its entities in order', rt.to_vlist(r).as_term(EntK) == ents.term)
    x = fresh_obj('added', EntK)
    do(ld.add_action, x)
    r = do(ld.visit, ctx)
    prove('added actions come last', rt.to_vlist(r).as_term(EntK) == Concat(ents.term, Unit(x.term)))
