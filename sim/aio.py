"""Real asyncio loops over a simulated selector and wake-up."""

import asyncio
import asyncio.tasks
import itertools
import sys
import threading
import weakref
from asyncio import futures, unix_events

from . import kernel


class OrderedSet:
    """What WeakSet keeps its references in; iterates in insertion order."""

    def __init__(self, items=()):
        self._d = dict.fromkeys(items)

    def add(self, x):
        self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def difference_update(self, other):
        for x in other:
            self._d.pop(x, None)

    def update(self, other):
        for x in other:
            self._d[x] = None

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def __contains__(self, x):
        return x in self._d

    def __bool__(self):
        return bool(self._d)


class TaskSet(set):
    """A set of tasks with a decided iteration order."""

    def __init__(self, items):
        items = list(items)
        super().__init__(items)
        self._order = items

    def __iter__(self):
        return iter([t for t in self._order if set.__contains__(self, t)])


def all_tasks(loop=None):
    if loop is None:
        loop = asyncio.get_running_loop()
    tasks = [t for t in itertools.chain(list(asyncio.tasks._scheduled_tasks),
                                        list(asyncio.tasks._eager_tasks))
             if futures._get_loop(t) is loop and not t.done()]
    sim = kernel.ACTIVE
    if sim is not None and sim.order_rng is not None:
        sim.order_rng.shuffle(tasks)
    return TaskSet(tasks)


class SimSelector:
    """Blocks in the simulator instead of in the kernel."""

    def __init__(self):
        self.woken = False
        self.waiter = None
        self.spins = 0
        self._map = {}

    def wake(self):
        self.woken = True
        sim = kernel.ACTIVE
        if sim is not None and self.waiter is not None:
            sim.wake(self.waiter)

    def select(self, timeout=None):
        sim = kernel.ACTIVE
        th = sim.cur() if sim is not None else None
        if th is None:
            if self.woken or (timeout is not None and timeout <= 0):
                self.woken = False
                return []
            raise kernel.HarnessError('event loop would block outside the '
                                      'simulation')
        if timeout is not None and timeout <= 0 or self.woken:
            self.woken = False
            self.spins += 1
            if self.spins > 300:     # a spinning loop must see time pass
                self.spins = 0
                sim.block('spin', sim.now + 1e-3)
            else:
                sim.point('select')
            return []
        self.spins = 0
        sim.point('select')
        if not self.woken:
            self.waiter = th
            sim.block(self, None if timeout is None else sim.now + timeout)
            self.waiter = None
        self.woken = False
        return []

    # unused parts of the interface
    def register(self, fileobj, events, data=None):
        raise kernel.HarnessError('real I/O on a simulated loop')

    unregister = modify = get_key = register

    def get_map(self):
        return self._map

    def close(self):
        pass


class SimLoop(unix_events._UnixSelectorEventLoop):

    _seq = itertools.count()

    def __init__(self, selector=None):
        self._sim_selector = SimSelector()
        self.run_epoch = 0
        self.double_run = 0
        self.runners = set()
        self.serial = next(SimLoop._seq)
        super().__init__(self._sim_selector)
        self._asyncgens.data = OrderedSet()
        self._clock_resolution = 1e-9
        self.sim_exceptions = []
        sim = kernel.ACTIVE
        if sim is not None:
            if sim.keep_loops:
                sim.loops.append(self)
            else:
                sim.loops.append(weakref.ref(self))

    #: the thread, if any, which starts the loop in one step.  In
    #: run_until_complete() asyncio first adds the callback that is to stop
    #: the loop; if another thread ran the loop just then, it would be lost.
    starter = None

    def __hash__(self):
        return self.serial

    def __eq__(self, other):
        return self is other

    def _make_self_pipe(self):
        self._internal_fds += 1

    def _close_self_pipe(self):
        self._internal_fds -= 1

    def _write_to_self(self):
        self._sim_selector.wake()

    def _process_self_data(self, data):
        pass

    def time(self):
        sim = kernel.ACTIVE
        if sim is None:
            return kernel_real_monotonic()
        return sim.now

    def call_soon_threadsafe(self, callback, *args, context=None):
        sim = kernel.ACTIVE
        th = sim.cur() if sim is not None else None
        if th is not None:
            sim.point('call_soon_threadsafe')
        handle = super().call_soon_threadsafe(callback, *args, context=context)
        if th is not None:
            sim.point('call_soon_threadsafe.done')
        return handle

    def run_forever(self):
        sim = kernel.ACTIVE
        th = sim.cur() if sim is not None else None
        if th is not None and self.starter is not th:
            sim.point('loop.run')
        if self._thread_id is not None:
            self.double_run += 1
            if sim is not None:
                sim.count('probe.loop_already_running')
        else:
            self.run_epoch += 1
        try:
            super().run_forever()
        finally:
            if th is not None:
                self.runners.discard(th.tid)
            if th is not None and kernel.ACTIVE is sim:
                sim.point('loop.stopped')

    def _run_once(self):
        sim = kernel.ACTIVE
        th = sim.cur() if sim is not None else None
        if th is not None and th.tid not in self.runners:
            self.runners.add(th.tid)
            if len(self.runners) > 1:
                sim.count('probe.loop_run_twice')
                sim.event('loop.run_twice', self.serial)
                sim.run_twice = True
        leaving = True
        try:
            super()._run_once()
            leaving = self._stopping
        finally:
            if leaving and th is not None:
                # run_forever only tidies up from here on, part of it after
                # it has given up the loop
                self.runners.discard(th.tid)

    def stop(self):
        super().stop()

    def close(self):
        sim = kernel.ACTIVE
        th = sim.cur() if sim is not None else None
        if th is not None:
            sim.point('loop.close')
        super().close()

    def default_exception_handler(self, context):
        self.sim_exceptions.append(
            (context.get('message'), repr(context.get('exception'))))

    def __del__(self, _warn=None):
        if not self.is_closed():
            try:
                super().close()
            except Exception:
                pass


def kernel_real_monotonic():
    from . import patch
    return patch._real['monotonic']()


def double_runs(sim):
    return getattr(sim, 'run_twice', False)


class SimPolicy(unix_events._UnixDefaultEventLoopPolicy):
    _loop_factory = SimLoop

    def get_child_watcher(self):
        raise NotImplementedError


def install():
    asyncio.tasks._scheduled_tasks.data = OrderedSet()
    asyncio.tasks.all_tasks = all_tasks
    asyncio.all_tasks = all_tasks
    asyncio.SelectorEventLoop = SimLoop
    unix_events.SelectorEventLoop = SimLoop
    asyncio.set_event_loop_policy(SimPolicy())
