"""C04: each event reaches exactly the handlers registered when it was taken, in order."""
import collections

from .common import *
import launch.launch_service
from launch import Event, LaunchDescriptionEntity, LaunchService
from launch.utilities import visit_all_entities_and_collect_futures

LS = 'launch.launch_service:LaunchService.'
MATCH = uf('matches', IntS, BoolS)
ENTS = uf('handler_entities', IntS, z3.SeqSort(AnyS))
SHAPE = uf('handler_shape', IntS, IntS)          # 0: a sequence, 1: one entity, 2: None
ONE = uf('handler_entity', IntS, IntS)
VIS = uf('visits', IntS, z3.SeqSort(EvK.sort))
PAIRS = uf('futures', IntS, z3.SeqSort(IntS))
HPAIRS = uf('handler_futures', IntS, z3.SeqSort(IntS))
ISENT = uf('is_entity', IntS, BoolS)


class Entity(SymObj):
    py_class = LaunchDescriptionEntity


class Other(SymObj):
    """Something that is not a launch entity."""


EntK = ObjK('entity', Entity)


class W:
    """The world of one run: ghost state shared by the fakes."""


class Handler(SymObj):
    py_class = launch.event_handler.BaseEventHandler

    def matches(self, event):
        w = E().path.world
        prove('handlers are asked about the event taken', event is w.event)
        w.locals.check('locals are restored when a handler is asked')
        emit('match', self)
        return BoolK.wrap(MATCH(self.term))

    def handle(self, event, ctx):
        w = E().path.world
        prove('handlers get the event taken', event is w.event)
        prove('handlers get the context', ctx is w.ctx)
        w.locals.check_inside()
        emit('handle', self)
        w.locals.change()
        # the handler may register and unregister handlers
        w.registered.vc_havoc(HK)
        log_write_list(w.registered)
        if w.may_raise and choose(2):
            raise w.error
        h = self.term
        if E().branch(SHAPE(h) == 2):
            return None
        if E().branch(SHAPE(h) == 1):
            return EntK.wrap(ONE(h))
        E().assume(SHAPE(h) == 0)
        s = VList(kind=AnyK, term=ENTS(h))
        pred = lambda x: Not(AnyS.is_none(x))
        F, A, B = filtered_folds('visit', s, pred, evs(), lambda a, x: cat(a, evs(ev('visit', x))))
        F2, A2, B2 = filtered_folds('pairs', s, pred, Empty(z3.SeqSort(IntS)), lambda a, x: Concat(a, PAIRS(AnyS.o(x))))
        E().assume(F.full == F2.full)
        E().assume(VIS(h) == A.full)
        E().assume(HPAIRS(h) == A2.full)
        w.inner_valid = ForAllPrefix('valid', s, _valid)
        w.inner_filtered = ForAllPrefix('valid.filtered', F.result, _valid)
        E().assume(w.inner_valid.full == w.inner_filtered.full)
        if not w.invalid:
            E().assume(w.inner_valid.full)
        return s


HK = ObjK('handler', Handler)


def log_write_list(v):
    from pyvc.core import log_write
    log_write(v, None, HK)


def _valid(x):
    return Or(AnyS.is_none(x), AnyS.is_ref(x))


def _visit(e, ctx, futures=None):
    w = E().path.world
    prove('entities are visited in the context', ctx is w.ctx)
    if isinstance(e, SymAny):
        e = e.resolve()
    if not isinstance(e, ObjProxy):
        fail('only entities are visited')
        E().end()
    emit('visit', e)
    w.locals.change()
    w.registered.vc_havoc(HK)
    log_write_list(w.registered)
    found = VList(kind=RefK, term=PAIRS(EntK.unwrap(e)))
    if futures is None:
        return found
    futures.extend(found)
    return futures


class HLocals(Locals):
    def check_inside(self):
        # saved once more than at the start, the state being the one of the start
        prove('handlers start from the locals of the run',
              And(IntK.unwrap(self.cur) == IntK.unwrap(self.cur0),
                  self.stack.as_term(IntK) == Concat(self.stack0, Unit(IntK.unwrap(self.cur0)))))


def _service(invalid=False, may_raise=False):
    quiet()
    ls = new(LaunchService)
    ctx = ls.context
    w = W()
    w.ctx, w.event, w.invalid, w.may_raise = ctx, Event(), invalid, may_raise
    w.error = ValueError('handler')
    w.locals = HLocals(ctx)
    w.registered = VList(kind=HK, term=E().fresh('handlers', z3.SeqSort(IntS)), cls=collections.deque)
    w.H = VList(kind=HK, term=w.registered.term)
    object.__setattr__(ctx, '_event_handlers', w.registered)
    object.__setattr__(ctx, '_event_queue', Queue(w.event))
    w.pairs0 = E().fresh('pairs', z3.SeqSort(IntS))
    ls._entity_future_pairs = VList(kind=RefK, term=w.pairs0)
    E().path.world = w
    E().path.refkind = EntK
    use_contract(visit_all_entities_and_collect_futures, _visit)
    new_trace()

    def step(acc, h):
        x = AnyS.ref(h)
        seen = If(SHAPE(h) == 0, VIS(h), If(SHAPE(h) == 1, evs(ev('visit', AnyS.ref(ONE(h)))), evs()))
        return cat(acc, evs(ev('match', x)), If(MATCH(h), cat(evs(ev('handle', x)), seen), evs()))

    def pstep(acc, h):
        return Concat(acc, If(MATCH(h), If(SHAPE(h) == 0, HPAIRS(h), If(SHAPE(h) == 1, PAIRS(ONE(h)),
                                                                    Empty(z3.SeqSort(IntS)))), Empty(z3.SeqSort(IntS))))
    w.T = Fold('trace', w.H, evs(), step)
    w.P = Fold('allpairs', w.H, Empty(z3.SeqSort(IntS)), pstep)
    return ls, ctx, w


ASSUMES = ('visit_all_entities_and_collect_futures(e, ctx) visits e and returns its futures (C06)',
           'LaunchContext._push_locals/_pop_locals/extend_locals (C03)',
           'handlers and entities: arbitrary, may change the registered handlers and the locals at will')


@unit('C04', [LS + '_process_one_event', LS + '__process_event'], assumes=ASSUMES)
def event_dispatch():
    ls, ctx, w = _service()
    run_coro(ls._process_one_event())
    prove('handlers, matches and visits in order', E().path.trace.term == w.T.full)
    prove('all pending work is recorded in order', ls._entity_future_pairs.as_term(RefK) == Concat(w.pairs0, w.P.full))
    w.locals.check('locals are restored at the end')


@unit('C04', [LS + '_process_one_event', LS + '__process_event'], assumes=ASSUMES)
def non_entities():
    ls, ctx, w = _service(invalid=True)
    k, x = outcome(run_coro, ls._process_one_event())
    if k == 'raise':
        prove('only a non-entity makes processing fail', isinstance(x, RuntimeError), repr(x))
        if hasattr(w, 'inner_valid'):
            prove('no failure if every returned value is an entity or None', Not(w.inner_valid.full))
        else:
            fail('failure without a returned sequence')
        w.locals.check('locals are restored after a failure')
    elif hasattr(w, 'inner_valid'):
        prove('a non-entity is never accepted', w.inner_valid.full)


@unit('C04', [LS + '_process_one_event', LS + '__process_event'], assumes=ASSUMES)
def failing_handler():
    ls, ctx, w = _service(may_raise=True)
    k, x = outcome(run_coro, ls._process_one_event())
    if k == 'raise':
        prove('the error of the handler is reported', x is w.error, repr(x))
        w.locals.check('locals are restored after a failing handler')


@unit('C04', [LS + '_process_one_event', LS + '__process_event'], assumes=ASSUMES)
def one_entity_or_none():
    quiet()
    ls = new(LaunchService)
    ctx = ls.context
    ent = new(LaunchDescriptionEntity)
    tr = new_trace()
    event = Event()

    class H(Fake):
        def __init__(self, r, m):
            self.r, self.m = r, m

        def matches(self, e):
            return self.m

        def handle(self, e, c):
            emit('handle', self)
            return self.r
    m1, m2 = fresh_bool('m1'), fresh_bool('m2')
    h1 = H(ent, m1)
    h2 = H([None, ent, None, ent] if choose(2) else None, m2)
    object.__setattr__(ctx, '_event_handlers', VList([h1, h2], cls=collections.deque))
    object.__setattr__(ctx, '_event_queue', Queue(event))

    def visit(e, c, futures=None):
        emit('visit', e)
        return [] if futures is None else futures
    use_contract(visit_all_entities_and_collect_futures, visit)
    run_coro(ls._process_one_event())
    a = cat(evs(ev('handle', h1)), evs(ev('visit', ent)))
    b = evs(ev('handle', h2))
    if h2.r is not None:
        b = cat(b, evs(ev('visit', ent)), evs(ev('visit', ent)))
    prove('exactly the entities returned are visited', tr.as_term(EvK) == cat(If(m1.term, a, evs()), If(m2.term, b, evs())))
