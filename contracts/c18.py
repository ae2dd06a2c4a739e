"""C18: processes start, exit and are restarted as configured, and always complete."""
from .c15 import Awaitable
from .execlocal import *
from .execlocal import E, M, T, tm
from launch.events.process import ProcessStarted

ASSUMES = (
    'async_execute_process: starts the process and returns its transport and protocol, or raises',
    'the protocol is complete when the process has exited, with its return code',
    'asyncio.wait returns when its future is done or the timeout has passed; asyncio.sleep(0) lets others run',
    'values of the arguments (C08, C12), handlers and matchers of events (C06), create_task runs its coroutine later')


@unit('C18', [T + 'execute', T + '__execute_process', T + '__cleanup', T + '_shutdown_process', T + '__on_shutdown',
              T + 'get_asyncio_future', T + 'prepare'], assumes=ASSUMES, budget=300)
def run():
    """One run of the process, after any number of restarts, with a shutdown at any suspension."""
    w = Process()
    # where a shutdown happens: nowhere, or at one of the suspensions
    w.shutdown_at = [None, 'starting', 'announcing', 'running', 'draining', 'exited', 'delay'][choose(7)]
    w.shutdown_how = choose(2) if w.shutdown_at else 0
    k, r = outcome(w.run)
    prove('the run does not fail', k == 'ok', repr(r))
    names = [type(e).__name__ for e in w.ctx.events]
    if w.failed:
        prove('nothing is announced for a process that did not start', names == [])
    else:
        prove('the start is announced, then the exit, once', names == ['ProcessStarted', 'ProcessExited'],
              repr(w.log.errors)[-600:])
        if len(names) != 2:
            return
        a, b = w.ctx.events
        prove('the actual return code', tm(b.returncode) == tm(w.returncode))
        prove('of this process', all(e.action is w.action and e.process_name == 'proc' and e.pid == w.pid and e.cmd == ['cmd', 'arg']
                                     and e.cwd == '/cwd' and e.env == {'VAR': 'value'} for e in (a, b)))
        prove('the start is announced when it has started, the exit when it has exited', w.seen == [('started', 1), ('exited', 2)])
    done = w.completed.times
    restarts = len(w.loop.tasks) - 1
    prove('completion is reported exactly once, or the process is started again once', done + restarts == 1)
    if w.failed:
        prove('a process that cannot be started is not started again', done == 1)
        return
    more = Or(tm(w.max_retries) < 0, tm(w.retries) < tm(w.max_retries))
    should = And(tm(w.respawn), more, Not(tm(w.down)))
    prove('it is started again exactly if so configured', should if restarts else Not(should))
    if restarts:
        n = tm(private(w.action, '__respawn_retries'))
        prove('restarts are counted', n == tm(w.retries) + 1)
    if w.waited:
        prove('the delay is waited for before a restart', len(w.waited) == 1)
    if restarts:
        prove('after the delay', len(w.waited) == (1 if w.delay is not None and not E().entailed(tm(w.delay) <= 0)[0] == 'proved' else 0))


@unit('C18', [T + 'execute', T + '__init__'], assumes=ASSUMES, budget=100)
def first():
    """Executing the action."""
    w = World(execute=False, respawn=True, respawn_max_retries=3)
    how = choose(3)
    if how == 0:
        w.ctx.is_shutdown = True
        r = do(w.action.execute, w.ctx)
        prove('nothing is started during shutdown', not r and not w.loop.tasks and not w.ctx.handlers and not w.ctx.events)
        f = do(w.action.get_asyncio_future)
        prove('nothing has to be waited for', f is None or f.done())
    elif how == 1:
        r = do(w.action.execute, w.ctx)
        prove('one run is started', not r and len(w.loop.tasks) == 1)
        f = do(w.action.get_asyncio_future)
        prove('its completion can be waited for', f is not None and Not(tm(f.done())))
        k, r = outcome(do, w.action.execute, w.ctx)
        prove('an action is executed once', k == 'raise' and isinstance(r, RuntimeError) and len(w.loop.tasks) == 1)
    else:
        class Failed(Exception):
            pass

        def fail_(*a):
            raise Failed
        use_contract(launch.logging.get_output_loggers, fail_)
        k, r = outcome(do, w.action.execute, w.ctx)
        prove('errors are reported', k == 'raise' and isinstance(r, Failed))
        prove('nothing is left behind', not w.loop.tasks and len(w.ctx.removed) == len(w.ctx.handlers)
              and all(a is b for a, b in zip(w.ctx.removed, w.ctx.handlers)))
