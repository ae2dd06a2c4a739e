import asyncio

from launch import Event
from launch.actions import OpaqueFunction
from launch.event_handler import BaseEventHandler
from .common import *

RULE = ('random populations of handlers on a real launch service that add and remove handlers, extend locals, fail, and '
        'return one entity, none, sequences or non-entities; the log of matches, calls and visits is compared with a '
        'reference dispatcher; non-trivial: distinct populations')


class Ev(Event):
    name = 'pyvc.Ev'

    def __init__(self, n):
        self.n = n


class H(BaseEventHandler):
    def __init__(self, w, hid, **k):
        self.w, self.hid = w, hid
        super().__init__(matcher=self.ask, handle_once=w.spec[hid]['once'])

    def ask(self, event):
        if not isinstance(event, Ev):
            return False
        self.w.check_locals('when handler %d is asked' % self.hid)
        self.w.log.append(('match', self.hid, event.n))
        return event.n in self.w.spec[self.hid]['on']

    def handle(self, event, context):
        super().handle(event, context)
        s = self.w.spec[self.hid]
        self.w.log.append(('handle', self.hid, event.n))
        eq(context.locals.event is event, True, 'event in the locals')
        context.extend_locals({'secret': self.hid})
        self.w.apply(s['ops'])
        if s['shape'] == 'fail':
            raise ValueError('handler %d' % self.hid)
        ents = [self.w.entity(self.hid, i, o) for i, o in enumerate(s['ents'])]
        if s['shape'] == 'none':
            return None
        if s['shape'] == 'one':
            return self.w.entity(self.hid, 0, [])
        if s['shape'] == 'bad':
            return ents[:1] + [Duck(self.w.log)] + ents[1:]
        if s['shape'] == 'badone':
            return Duck(self.w.log)
        if s['shape'] == 'tuple':
            return tuple(ents)
        if s['shape'] == 'gaps':
            return [None] + ents + [None]
        if s['shape'] == 'gen':
            return (e for e in ents)
        return ents


class Duck:
    """Looks like an entity but is not one."""

    def __init__(self, log):
        self.log = log

    def visit(self, context):
        self.log.append('a non-entity was visited')

    def get_asyncio_future(self):
        return None


def again(spec, added, op, k):
    """One-shot handlers are registered once in these histories."""
    if op == 'remove' or not spec[k]['once']:
        return False
    if k in added:
        return True
    added.add(k)
    return False


class World:
    def __init__(self, spec):
        self.spec, self.log = spec, []
        self.added = set()

    def entity(self, hid, i, ops):
        def f(context):
            self.log.append(('visit', hid, i))
            eq(context.locals.secret, hid, 'locals of the handler are visible to its entities')
            self.apply(ops)
        return OpaqueFunction(function=f)

    def apply(self, ops):
        for op, k in ops:
            try:
                if again(self.spec, self.added, op, k):
                    continue
                if op == 'add':
                    self.ctx.register_event_handler(self.hs[k])
                elif op == 'append':
                    self.ctx.register_event_handler(self.hs[k], append=True)
                else:
                    self.ctx.unregister_event_handler(self.hs[k])
            except ValueError:
                pass

    def check_locals(self, what):
        eq(dict(self.ctx.get_locals_as_dict()), self.base, 'locals ' + what)


def reference(spec, init, events):
    log = []
    hs = []
    added = set()

    def apply(ops):
        for op, k in ops:
            if again(spec, added, op, k):
                continue
            if op == 'add':
                hs.insert(0, k)
            elif op == 'append':
                hs.append(k)
            elif k in hs:
                hs.remove(k)
    apply(init)
    rc = 0
    for n in events:
        for k in list(hs):
            log.append(('match', k, n))
            s = spec[k]
            if n not in s['on']:
                continue
            if s['once'] and k in hs:
                hs.remove(k)
            log.append(('handle', k, n))
            apply(s['ops'])
            sh = s['shape']
            if sh in ('fail', 'badone'):
                return log, True
            if sh == 'none':
                continue
            if sh == 'one':
                log.append(('visit', k, 0))
                continue
            for i, o in enumerate(s['ents']):
                if sh == 'bad' and i == 1:
                    return log, True
                log.append(('visit', k, i))
                apply(o)
            if sh == 'bad':
                return log, True
    return log, False


def run(h):
    r = h.rng

    def one(spec, init, events):
        def f():
            w = World(spec)
            ls = LaunchService(noninteractive=True)
            w.ctx = ls.context
            w.hs = [H(w, i) for i in range(len(spec))]
            w.base = dict(w.ctx.get_locals_as_dict())
            w.apply(init)

            def start(context):
                for n in events:
                    context.emit_event_sync(Ev(n))
            for n in events:
                ls.emit_event(Ev(n))
            want, failed = reference(spec, init, events)
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                rc = loop.run_until_complete(asyncio.wait_for(ls.run_async(), 15))
            finally:
                loop.close()
                asyncio.set_event_loop(None)
            got = w.log[:len(want)] if failed else w.log
            # a failure is an error of the run; what else happens then is not specified
            eq(got, want, 'calls and visits')
            eq(rc != 0, failed, 'error reported in the return code')
            w.check_locals('at the end')
        h.case('dispatch', dict(spec=spec, init=init, events=events), f)

    def ops(n, k):
        return [(r.choice(['add', 'append', 'remove', 'remove']), r.randrange(n)) for _ in range(r.randint(0, k))]

    def spec(n, bad):
        shapes = ['none', 'one', 'list', 'tuple', 'gaps', 'gen', 'list']
        return [dict(on=r.sample([0, 1, 2], r.randint(0, 3)), once=r.random() < .3, ops=ops(n, 2),
                     shape=r.choice(shapes + (['fail', 'bad', 'badone'] if bad else [])),
                     ents=[ops(n, 1) for _ in range(r.randint(0, 3))]) for _ in range(n)]
    for i in range(h.n(250)):
        n = r.randint(1, 5)
        init = [(r.choice(['add', 'append']), r.randrange(n)) for _ in range(r.randint(1, 6))]
        one(spec(n, i % 3 == 0), init, [r.randrange(3) for _ in range(r.randint(1, 3))])
