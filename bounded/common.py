"""Helpers for the bounded harnesses: real objects, public interfaces only."""
import asyncio
import os
import time

import launch
from launch import LaunchContext, LaunchDescription, LaunchService  # noqa: F401
from launch.substitutions import TextSubstitution  # noqa: F401

NAMES = ['a', 'b', 'c', 'name with space', 'PYVC_X', 'é', 'a.b']
TEXTS = ['', '1', '0', 'true', 'False', 'x', 'x y', 'ünï', "it's", '"q"', 'a:b', '/tmp/q', '-1', '1.5', '[1, 2]', ' ']
ENVN = ['PYVC_A', 'PYVC_B', 'PYVC_C', 'PYVC_D']


class Recorder(launch.Action):
    """Action that appends to a log when executed."""

    def __init__(self, log, tag, fn=None, future=None, **k):
        super().__init__(**k)
        self.log, self.tag, self.fn, self.future = log, tag, fn, future

    def execute(self, context):
        self.log.append(self.tag)
        return self.fn(context) if self.fn else None

    def get_asyncio_future(self):
        return self.future


class Lookup(launch.Substitution):
    """Reads a launch configuration when performed (to observe evaluation time)."""

    def __init__(self, name, log=None):
        super().__init__()
        self.name, self.log = name, log

    def perform(self, context):
        if self.log is not None:
            self.log.append(self.name)
        return context.launch_configurations.get(self.name, '<unset>')

    def describe(self):
        return 'Lookup'


def fresh_env(values):
    for k in list(os.environ):
        if k.startswith('PYVC_') and k != 'PYVC_REPO':
            del os.environ[k]
    os.environ.update(values)


def env_now():
    return {k: v for k, v in os.environ.items() if k.startswith('PYVC_') and k != 'PYVC_REPO'}


def full_env():
    return dict(os.environ)


def eq(got, want, what=''):
    if got != want:
        raise AssertionError('%s: got %r, expected %r' % (what, got, want))


def raises(exc, fn, what=''):
    try:
        r = fn()
    except exc as e:
        return e
    except Exception as e:
        raise AssertionError('%s: raised %r, expected %s' % (what, e, exc))
    raise AssertionError('%s: returned %r, expected %s' % (what, r, exc))


def visit_tree(entities, context, order=None):
    """Reference depth-first visit through the public visit()."""
    for e in entities or ():
        if order is not None:
            order.append(e)
        visit_tree(e.visit(context), context, order)


def run_ld(entities, timeout=15, **kw):
    """Run a real launch service over the entities; returns (rc, service)."""
    ls = LaunchService(**kw)
    ls.include_launch_description(LaunchDescription(entities))
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)

    async def go():
        return await asyncio.wait_for(ls.run_async(), timeout)
    start = time.monotonic()
    try:
        rc = loop.run_until_complete(go())
        if time.monotonic() - start >= timeout:
            # the service ends in order when it is canceled
            raise TimeoutError('the launch does not end')
    finally:
        try:
            loop.run_until_complete(asyncio.sleep(0))
        except Exception:
            pass
        loop.close()
        asyncio.set_event_loop(None)
    return rc, ls


class VirtualLoop(asyncio.SelectorEventLoop):
    """An event loop in which waiting takes no time."""

    def __init__(self):
        super().__init__()
        self._now = 0.0
        real = self._selector.select

        def select(timeout=None):
            if timeout is None:
                return real(timeout)
            events = real(0)
            if not events and timeout > 0:
                self._now += timeout
            return events
        self._selector.select = select

    def time(self):
        return self._now
