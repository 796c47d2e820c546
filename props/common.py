"""Helpers shared by the property drivers."""

import asyncio
import inspect

from sim import kernel

EXCS = {
    'ValueError': ValueError, 'KeyError': KeyError,
    'RuntimeError': RuntimeError, 'TimeoutError': TimeoutError,
    'OSError': OSError, 'LookupError': LookupError,
    'StopAsyncIteration': StopAsyncIteration,
}


class HarnessExc(Exception):
    """An exception class only the harness raises."""


class FalsyExc(Exception):
    """An exception that is false, like an empty collection of errors."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class HarnessBase(BaseException):
    """A BaseException that is not an Exception."""


class CancelSub(asyncio.CancelledError):
    """A subclass of CancelledError, raised by user code itself."""


EXCS['HarnessExc'] = HarnessExc
EXCS['FalsyExc'] = FalsyExc
EXCS['HarnessBase'] = HarnessBase
EXCS['CancelledError'] = asyncio.CancelledError
EXCS['CancelSub'] = CancelSub
EXCS['InvalidStateError'] = asyncio.InvalidStateError


def make_exc(name, tag):
    e = EXCS[name](tag)
    e.tag = tag
    return e


def cancel_all(sim, loop):
    """What asyncio.run does to leftovers, in a decided order."""
    tasks = list(asyncio.all_tasks(loop))
    for t in tasks:
        t.cancel()
    if tasks:
        loop.run_until_complete(
            asyncio.gather(*tasks, return_exceptions=True))
    return tasks


class Failed(Exception):
    """A coroutine of the harness failed."""


def alone(sim, loop, fn, busy=None):
    """fn() once nothing else runs the loop: a wait_from_anywhere() may be
    doing that, and may start to at any moment."""
    while True:
        if loop.is_running():
            sim.event('another thread runs the loop')
            if busy is not None:
                busy()
            while loop.is_running():
                sim.sleep(0.05)
        sim.point('loop.run')
        loop.starter, before = sim.cur(), loop.starter
        try:
            return fn()
        except RuntimeError as e:
            if 'running' not in str(e) or loop.is_closed():
                raise
            sim.event('another thread started the loop')
            sim.sleep(0.01)
        finally:
            loop.starter = before


def run_alone(sim, loop, make, busy=None):
    """Run the coroutine from make() on the loop, see alone()."""
    def once():
        c = make()
        try:
            return loop.run_until_complete(c)
        except RuntimeError as e:
            if inspect.getcoroutinestate(c) != inspect.CORO_CREATED:
                raise Failed from e
            raise
        finally:
            c.close()
    return alone(sim, loop, once, busy)


def shutdown(sim, loop):
    """The tail of asyncio.run."""
    def busy():
        try:
            loop.call_soon_threadsafe(
                lambda: [t.cancel() for t in asyncio.all_tasks(loop)])
        except RuntimeError:
            pass
    try:
        alone(sim, loop, lambda: cancel_all(sim, loop), busy)
        run_alone(sim, loop, loop.shutdown_asyncgens, busy)
        run_alone(sim, loop, loop.shutdown_default_executor, busy)
    finally:
        asyncio.set_event_loop(None)
        alone(sim, loop, loop.close, busy)


def pick(rng, *weighted):
    """pick(rng, (w, value), ...)"""
    tot = sum(w for w, _ in weighted)
    r = rng.random() * tot
    for w, v in weighted:
        r -= w
        if r < 0:
            return v
    return weighted[-1][1]


def alive(th):
    return th.state in (kernel.RUNNABLE, kernel.BLOCKED)


#: exceptions of the code under test that a driver turns into data
UNDER_TEST = (OSError, RuntimeError, ValueError, TypeError, AttributeError,
              LookupError, AssertionError, TimeoutError, NameError,
              ArithmeticError)


def quiet(fn, default=None):
    """Call `fn`; an exception of the code under test counts as `default`."""
    try:
        return fn()
    except UNDER_TEST:
        return default
