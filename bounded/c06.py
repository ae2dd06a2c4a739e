import asyncio

from launch import LaunchDescriptionEntity
from launch.actions import GroupAction, IncludeLaunchDescription, OpaqueFunction
from launch.launch_description_source import LaunchDescriptionSource
from launch.utilities import visit_all_entities_and_collect_futures
from .common import *

RULE = ('random trees of entities, groups, descriptions and includes; visit order and collected completion handles '
        'against a reference, and runs of a real service that must wait for all of them; non-trivial: distinct trees')


class Node(LaunchDescriptionEntity):
    def __init__(self, log, tag, subs, shape, future, when):
        self.log, self.tag, self.subs, self.shape, self.future, self.when = log, tag, subs, shape, future, when
        self.visited = False

    def visit(self, context):
        self.visited = True
        self.log.append(self.tag)
        if not self.subs and self.shape == 'none':
            return None
        return {'tuple': tuple, 'iter': iter}.get(self.shape, list)(self.subs)

    def get_asyncio_future(self):
        # some entities only have a handle once visited
        return self.future if self.visited or not self.when else None


def run(h):
    r = h.rng

    def build(t, log, fut):
        tag, kind, shape, hasf, subs = t
        f = fut(tag) if hasf else None
        kids = [build(s, log, fut) for s in subs]
        if kind == 'node':
            return Node(log, tag, kids, shape, f, shape == 'list')
        rec = Recorder(log, tag, fn=lambda c: kids, future=f)
        if kind == 'action':
            return rec
        if kind == 'group':
            return GroupAction([Recorder(log, tag, future=f)] + kids, scoped=shape == 'list')
        if kind == 'include':
            ld = LaunchDescription([Recorder(log, tag, future=f)] + kids)
            return IncludeLaunchDescription(LaunchDescriptionSource(ld))
        if kind == 'function':
            return OpaqueFunction(function=lambda c: log.append(tag) or kids or None)
        return LaunchDescription([Recorder(log, tag, future=f)] + kids,
                                 deprecated_reason='old' if shape == 'tuple' else None)

    def order(t):
        return [t[0]] + [x for s in t[4] for x in order(s)]

    def futs(t):
        own = [t[0]] if t[3] and t[1] != 'function' else []
        return own + [x for s in t[4] for x in futs(s)]

    n = [0]

    def tree(depth):
        n[0] += 1
        return (n[0], r.choice(['node', 'node', 'action', 'group', 'include', 'function', 'description']),
                r.choice(['list', 'tuple', 'none', 'iter']), r.random() < .5,
                [tree(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))] if depth else [])

    def visit(t):
        def f():
            log, fs = [], {}
            loop = asyncio.new_event_loop()

            def fut(tag):
                fs[tag] = loop.create_future()
                return fs[tag]
            ctx = LaunchContext()
            if t[2] == 'iter':
                ctx.extend_locals({'current_launch_file_path': '/x'})
            got = visit_all_entities_and_collect_futures(build(t, log, fut), ctx)
            eq(log, order(t), 'visits')
            want = futs(t)
            eq([id(x[1]) for x in got], [id(fs[k]) for k in want], 'completion handles, in order')
            for e, fu in got:
                eq(e.get_asyncio_future() is fu, True, 'handle paired with its entity')
                if hasattr(e, 'tag'):
                    eq(fs[e.tag] is fu, True, 'handle paired with its entity')
            loop.close()
        h.case('visit', t, f)
    for _ in range(h.n(300)):
        n[0] = 0
        visit(tree(r.choice([0, 1, 2, 3])))

    def failing_run(ts, at):
        """Work started before a visit failed is still waited for, and the failure is reported."""
        def f():
            log, fs = [], {}
            ls = LaunchService(noninteractive=True)

            def boom(c):
                raise ValueError('visit')

            async def go():
                loop = asyncio.get_running_loop()

                def fut(tag):
                    fs[tag] = loop.create_future()
                    return fs[tag]
                es = [build(t, log, fut) for t in ts]
                es.insert(at, OpaqueFunction(function=boom))
                ls.include_launch_description(LaunchDescription(es))
                task = loop.create_task(ls.run_async())
                pend = [fs[k] for t in ts[:at] for k in futs(t)]
                r.shuffle(pend)
                await asyncio.sleep(.005)
                for p in pend:
                    eq(task.done(), False, 'the run ended with work pending')
                    await asyncio.sleep(.001)
                    p.set_result(None)
                return await asyncio.wait_for(task, 10)
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                rc = loop.run_until_complete(go())
            finally:
                loop.close()
                asyncio.set_event_loop(None)
            eq(rc != 0, True, 'return code')
            eq(log, [x for t in ts[:at] for x in order(t)], 'visits')
        h.case('failing run', (ts, at), f)
    for _ in range(h.n(25)):
        n[0] = 0
        ts = [tree(r.choice([0, 1, 2])) for _ in range(r.randint(1, 3))]
        failing_run(ts, r.randint(0, len(ts)))

    def completed(how, deep):
        """Handles that are already completed are reported all the same."""
        def f():
            async def go():
                fu = asyncio.get_running_loop().create_future()
                {'ok': lambda: fu.set_result(1), 'fail': lambda: fu.set_exception(ValueError('x')), 'cancel': fu.cancel}[how]()
                a = Recorder([], 'a', future=fu)
                ctx = LaunchContext()
                ctx._set_asyncio_loop(asyncio.get_running_loop())
                got = visit_all_entities_and_collect_futures(GroupAction([a]) if deep else a, ctx)
                eq([(x is a, y is fu) for x, y in got], [(True, True)], 'completed handle')
                if how == 'fail':
                    fu.exception()
            asyncio.run(go())
        h.case('completed', (how, deep), f)
    for how in ('ok', 'fail', 'cancel'):
        for deep in (False, True):
            completed(how, deep)

    def full_run(t, seq):
        """The run does not end before every collected handle is done."""
        def f():
            log, fs, done = [], {}, []
            ls = LaunchService(noninteractive=True)

            async def go():
                loop = asyncio.get_running_loop()

                def fut(tag):
                    fs[tag] = loop.create_future()
                    return fs[tag]
                ls.include_launch_description(LaunchDescription([build(t, log, fut)]))
                task = loop.create_task(ls.run_async())
                pend = [fs[k] for k in futs(t)]
                seq.shuffle(pend)
                await asyncio.sleep(.01)
                for p in pend:
                    eq(task.done(), False, 'the run ended with work pending')
                    await asyncio.sleep(.002)
                    p.set_result(None)
                return await asyncio.wait_for(task, 10)
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                rc = loop.run_until_complete(go())
            finally:
                loop.close()
                asyncio.set_event_loop(None)
            eq(rc, 0, 'return code')
            eq(log, order(t), 'visits')
        h.case('run', t, f)
    for _ in range(h.n(12)):
        n[0] = 0
        full_run(tree(2), r)
