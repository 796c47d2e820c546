"""
The seams: threads, locks, queues, clocks, sleeping.

Everything here falls back to the real behaviour outside a simulation.
"""

import _thread
import sys
import time

from . import kernel
from .kernel import SimLock, SimRLock

_real = {}


def _th():
    s = kernel.ACTIVE
    if s is None:
        return None, None
    return s, s.cur()


# -- clocks ---------------------------------------------------------------------

def _install_clocks():
    real_time, real_mono, real_perf = \
        time.time, time.monotonic, time.perf_counter
    real_time_ns, real_mono_ns, real_perf_ns = \
        time.time_ns, time.monotonic_ns, time.perf_counter_ns
    real_sleep = time.sleep
    _real.update(time=real_time, monotonic=real_mono, sleep=real_sleep,
                 perf_counter=real_perf)

    def mono():
        s = kernel.ACTIVE
        return real_mono() if s is None else s.now

    def perf():
        s = kernel.ACTIVE
        return real_perf() if s is None else s.now

    def wall():
        s = kernel.ACTIVE
        return real_time() if s is None else s.wall_base + s.now

    def mono_ns():
        s = kernel.ACTIVE
        return real_mono_ns() if s is None else round(s.now * 1e9)

    def perf_ns():
        s = kernel.ACTIVE
        return real_perf_ns() if s is None else round(s.now * 1e9)

    def wall_ns():
        s = kernel.ACTIVE
        return real_time_ns() if s is None \
            else round((s.wall_base + s.now) * 1e9)

    def sleep(secs):
        s, th = _th()
        if th is None:
            if s is not None:
                raise kernel.HarnessError('sleep in a foreign thread')
            return real_sleep(secs)
        if secs < 0:
            raise ValueError('sleep length must be non-negative')
        s.point('sleep')
        for hook in s.sleep_hooks:
            hook(th, secs)
        s.sleep(secs)

    for name, fn in (('monotonic', mono), ('perf_counter', perf),
                     ('time', wall), ('monotonic_ns', mono_ns),
                     ('perf_counter_ns', perf_ns), ('time_ns', wall_ns),
                     ('sleep', sleep)):
        fn.__name__ = fn.__qualname__ = name
        setattr(time, name, fn)


# -- threads and locks -------------------------------------------------------------

def _allocate_lock():
    return SimLock()


def _start_new_thread(fn, args, kwargs=None):
    s, th = _th()
    if th is None:
        return _real['start_new_thread'](fn, args, kwargs or {})
    if kwargs:
        target = lambda *a: fn(*a, **kwargs)   # noqa
    else:
        target = fn
    if s.thread_limit is not None \
            and len(s.helpers_alive()) >= s.thread_limit:
        s.count('fault.thread_start_failure')
        raise RuntimeError("can't start new thread")
    name = getattr(getattr(fn, '__self__', None), 'name', None) or 'helper'
    return s.spawn(target, name=name, helper=True, args=args).tid


def _set_sentinel():
    s, th = _th()
    lock = SimLock()
    if th is not None:
        th.sentinel = lock
    return lock


def _install_threads():
    import threading
    _real['start_new_thread'] = _thread.start_new_thread
    _real['set_sentinel'] = _thread._set_sentinel
    threading.Lock = _allocate_lock
    threading._allocate_lock = _allocate_lock
    threading._CRLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading._time = time.monotonic
    # also for code that reaches below threading
    _thread.allocate_lock = _allocate_lock
    _thread.allocate = _allocate_lock
    _thread.RLock = SimRLock
    _thread.start_new_thread = _start_new_thread
    # The main thread's bookkeeping locks were made before us
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimLock()
    main = threading.main_thread()
    main._started = threading.Event()
    main._started._flag = True

    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = time.monotonic
    import functools
    functools.RLock = SimRLock


def _install_asyncio():
    from . import aio
    aio.install()


def install():
    _install_clocks()
    _install_threads()
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.root.addHandler(logging.NullHandler())
    logging.raiseExceptions = False
    _install_asyncio()
    # import what the code under test imports lazily
    import concurrent.futures.thread, asyncio.runners, asyncio.timeouts  # noqa
    import contextlib, random, traceback, tempfile, uuid, copy          # noqa
    import selectors, socket, signal, multiprocessing.synchronize       # noqa
