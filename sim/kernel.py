"""
The simulator kernel: one baton, a virtual clock and a seeded decider.

Every simulated thread is a real OS thread parked on its own gate; exactly one
of them (``Sim.current``) runs at any time.  A *switch point* is any place where
the running thread calls :meth:`Sim.point`; a *blocking point* is any place where
it calls :meth:`Sim.block`.  At both, the decider picks who runs next.  When
nothing is runnable, the virtual clock jumps to the earliest deadline.

This module must be imported before anything replaces primitives in ``_thread``.
"""

import _thread
import hashlib

_raw_lock = _thread.allocate_lock
_raw_start = _thread.start_new_thread
get_ident = _thread.get_ident

RUNNABLE, BLOCKED, DONE, KILLED = 0, 1, 2, 3
STATE_NAMES = ('runnable', 'blocked', 'done', 'killed')

#: The active simulation of this process (None outside a run)
ACTIVE = None


class HarnessError(Exception):
    """The harness itself (not the code under test) misbehaved."""


class Proc:
    """A simulated process: an owner of threads and resources."""

    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.alive = True
        self.on_crash = []

    def __repr__(self):
        return f'<Proc {self.name}>'


class SimThread:
    __slots__ = ('tid', 'name', 'gate', 'state', 'deadline', 'timed_out', 'k',
                 'ident', 'proc', 'waiting_on', 'prio', 'sentinel', 'last_loc',
                 'helper', 'line_k', 'parked_raw', 'data', 'stalled')

    def __init__(self, tid, name, proc, helper=False):
        self.tid = tid
        self.name = name
        self.gate = _raw_lock()
        self.gate.acquire()
        self.state = RUNNABLE
        self.deadline = None
        self.timed_out = False
        self.k = 0          # switch points passed so far
        self.line_k = 0     # traced source lines passed so far
        self.ident = None
        self.proc = proc
        self.waiting_on = None
        self.prio = 0.0
        self.sentinel = None
        self.last_loc = None
        self.helper = helper  # started by the code under test / stdlib
        self.parked_raw = False
        self.data = None
        self.stalled = False

    def __repr__(self):
        return f'<{self.tid}:{self.name} {STATE_NAMES[self.state]}>'


class Sim:
    """One simulated execution."""

    def __init__(self, decider, *, max_steps=200_000, max_time=100_000.0,
                 finish=None):
        self.decider = decider
        self.max_steps = max_steps
        self.t0 = 1000.0
        self.now = self.t0
        self.max_now = self.t0 + max_time
        self.wall_base = 1_700_000_000.0 - self.t0
        self.steps = 0
        self.switches = 0
        self.clock_jumps = 0
        self.threads = []
        self.current = None
        self.seq = 0            # global event sequence number
        self.log = []           # harness events
        self.trace = hashlib.md5()
        self.interleave = hashlib.md5()
        self.finished = False
        self._finish_cb = finish
        self.outcome = None
        self.counters = {}
        self.probes = {}
        self.main_proc = Proc(self, 'main')
        self.quiescent_hooks = []
        self.line_hooks = []
        self.crash_plans = {}       # Proc -> switch points left to live
        self.atomic = 0
        self._spin = 0
        self.sleep_hooks = []
        self.order_rng = None       # shuffles all_tasks()
        self.keep_loops = True
        self.loops = []
        self.thread_limit = None
        self.last_stall = 0.0       # when the last injected stall ended
        self.data = {}              # whatever the property keeps
        decider.attach(self)

    # -- bookkeeping -------------------------------------------------------

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def event(self, *what):
        """Record a harness event; returns its global sequence number."""
        self.seq += 1
        th = self.current
        rec = (self.seq, round(self.now - self.t0, 9),
               th.tid if th else -1) + what
        self.log.append(rec)
        self.trace.update(repr(rec).encode())
        return self.seq

    def digest(self):
        return self.trace.hexdigest()

    @property
    def time(self):
        """Virtual seconds since the start of the run."""
        return self.now - self.t0

    # -- running -------------------------------------------------------------

    def run_in_calling_thread(self, main):
        """
        Run `main` as simulated thread 0 in the calling OS thread.

        Ends by calling the finish callback with an outcome string from
        whichever thread decides that the run is over.  The callback may never
        return (fork mode); if it returns, this returns the outcome provided the
        deciding thread was thread 0.
        """
        global ACTIVE
        th = self._register('main', self.main_proc)
        th.ident = get_ident()
        self.current = th
        ACTIVE = self
        try:
            main()
        except BaseException as e:   # noqa
            self.finish('harness-exception', exc=e)
            return self.outcome
        self.finish('done')
        return self.outcome

    def finish(self, outcome, **info):
        global ACTIVE
        if self.finished:
            return
        self.finished = True
        self.outcome = outcome
        self.finish_info = info
        ACTIVE = None
        if self._finish_cb is not None:
            self._finish_cb(self, outcome, info)
        if get_ident() != self.threads[0].ident:
            # Cannot unwind: park this thread for good
            _park_forever()

    def _register(self, name, proc, helper=False):
        th = SimThread(len(self.threads), name, proc, helper)
        self.threads.append(th)
        self.decider.new_thread(th)
        return th

    def spawn(self, fn, name='t', proc=None, helper=False, args=()):
        """Create a simulated thread running ``fn(*args)``; returns it."""
        proc = proc or (self.current.proc if self.current else self.main_proc)
        th = self._register(name, proc, helper)

        def boot():
            th.gate.acquire()
            th.ident = get_ident()
            if self.finished:
                _park_forever()
            if not helper:
                _register_thread(th)
            try:
                fn(*args)
            except SystemExit:
                pass
            except BaseException as e:   # noqa
                if not helper:
                    self.finish('harness-exception', exc=e)
                    _park_forever()
            self._exit_thread(th)

        _raw_start(boot, ())
        self.point('spawn')
        return th

    def _exit_thread(self, th):
        th.state = DONE
        if th.data is not None:
            import threading
            threading._active.pop(th.ident, None)
        if th.sentinel is not None:
            s, th.sentinel = th.sentinel, None
            s._release_at_exit()
        for w in self.threads:
            if w.state == BLOCKED and w.waiting_on is th:
                self.wake(w)
        nxt = self._choose_blocked(th)
        if nxt is None:
            _park_forever()
        self._handoff(nxt)
        # this OS thread ends here

    def join(self, th, timeout=None):
        """Block the calling simulated thread until `th` is done."""
        deadline = None if timeout is None else self.now + timeout
        while th.state not in (DONE, KILLED):
            if not self.block(th, deadline):
                return False
        return True

    # -- switching -----------------------------------------------------------

    def _handoff(self, nxt):
        self.switches += 1
        cur = self.current
        self.interleave.update(
            b'%d:%d:%s>%d;' % (cur.tid, cur.line_k,
                               repr(cur.last_loc).encode(), nxt.tid))
        self.current = nxt
        nxt.gate.release()

    def _switch(self, cur, nxt):
        self._handoff(nxt)
        cur.gate.acquire()
        if self.finished:
            _park_forever()

    def cur(self):
        """The simulated thread of the calling OS thread, or None."""
        th = self.current
        if th is None or self.finished:
            return None
        return th if th.ident == get_ident() else None

    def point(self, kind, loc=None):
        """A switch point of the running thread."""
        th = self.current
        if self.finished or self.atomic:
            return
        self.steps += 1
        th.k += 1
        if self.steps > self.max_steps:
            self.finish('livelock')
            return
        th.last_loc = loc or kind
        if self.crash_plans:
            left = self.crash_plans.get(th.proc)
            if left is not None:
                if left <= 0:
                    del self.crash_plans[th.proc]
                    self.crash(th.proc)
                else:
                    self.crash_plans[th.proc] = left - 1
        d = self.decider.at_point(th, kind, loc)
        if d is None:
            return
        if d.__class__ is tuple:       # ('stall', seconds)
            self.count('fault.thread_stall')
            th.stalled = True
            self.sleep(d[1])
            th.stalled = False
            self.last_stall = self.time
            return
        if d is not th:
            self.count('fault.preemption')
            self._switch(th, d)

    def yield_(self):
        """The running thread asks to let others run (``sleep(0)``)."""
        th = self.current
        if self.finished or self.atomic:
            return
        self.steps += 1
        th.k += 1
        if self.steps > self.max_steps:
            self.finish('livelock')
            return
        others = [t for t in self.threads
                  if t.state == RUNNABLE and t is not th]
        self._spin += 1
        if self._spin > 400:
            # everybody spins: real time would pass
            self._spin = 0
            self.block('spin', self.now + 1e-3)
            return
        if others:
            nxt = self.decider.on_yield(th, others)
            if nxt is not th:
                self._switch(th, nxt)
            return
        # Alone: a spinning thread must see time pass
        ds = [t.deadline for t in self.threads
              if t.state == BLOCKED and t.deadline is not None]
        if ds and self._spin > 60:
            th.state = BLOCKED
            th.deadline = min(ds)
            th.waiting_on = 'yield'
            self._block_current(th)

    def block(self, on, deadline=None):
        """
        Block the running thread until woken (True) or until virtual time
        reaches `deadline` (False).
        """
        th = self.current
        if self.finished:
            _park_forever()
        if self.atomic:
            raise HarnessError(f'blocking on {on!r} inside an atomic section')
        self.steps += 1
        th.k += 1
        if self.steps > self.max_steps:
            self.finish('livelock')
            return False
        if deadline is not None and deadline <= self.now:
            return False
        th.state = BLOCKED
        th.deadline = deadline
        th.waiting_on = on
        th.timed_out = False
        self._block_current(th)
        return not th.timed_out

    def _block_current(self, th):
        nxt = self._choose_blocked(th)
        if nxt is None:
            return      # finished in thread 0
        if nxt is not th:
            self._switch(th, nxt)

    def wake(self, th):
        if th.state == BLOCKED:
            th.state = RUNNABLE
            th.deadline = None
            th.waiting_on = None
            th.timed_out = False

    def _choose_blocked(self, th):
        """Pick the next thread when `th` cannot run; advance time if needed."""
        while True:
            run = [t for t in self.threads if t.state == RUNNABLE]
            if run:
                return self.decider.on_block(th, run)
            for hook in self.quiescent_hooks:
                hook()
                if self.finished:
                    return None
            nxt = None
            for t in self.threads:
                if t.state == BLOCKED and t.deadline is not None \
                        and (nxt is None or t.deadline < nxt):
                    nxt = t.deadline
            if nxt is None:
                self.finish('deadlock')
                return None
            if nxt > self.max_now:
                self.finish('timecap')
                return None
            self.clock_jumps += 1
            self._spin = 0
            if nxt > self.now:
                self.now = nxt
            for t in self.threads:
                if t.state == BLOCKED and t.deadline is not None \
                        and t.deadline <= self.now:
                    t.state = RUNNABLE
                    t.deadline = None
                    t.waiting_on = None
                    t.timed_out = True

    def sleep(self, secs):
        """Virtual sleep of the running thread."""
        if secs <= 0:
            self.yield_()
            return
        self.block('sleep', self.now + secs)

    # -- crash ---------------------------------------------------------------

    def crash(self, proc):
        """Kill a simulated process at this instant; never returns if the
        running thread belongs to it."""
        proc.alive = False
        self.count('fault.process_crash')
        for t in self.threads:
            if t.proc is proc and t.state in (RUNNABLE, BLOCKED):
                t.state = KILLED
        for fn in proc.on_crash:
            fn()
        for t in self.threads:
            if t.state == BLOCKED and isinstance(t.waiting_on, SimThread) \
                    and t.waiting_on.proc is proc:
                self.wake(t)
        cur = self.current
        if cur.proc is proc:
            nxt = self._choose_blocked(cur)
            if nxt is None:
                _park_forever()
            self._handoff(nxt)
            _park_forever()

    def helpers_alive(self):
        """Threads started by the code under test that have not ended."""
        return [t for t in self.threads
                if t.helper and t.state in (RUNNABLE, BLOCKED)]

    def describe(self):
        return [(t.tid, t.name, STATE_NAMES[t.state],
                 None if t.deadline is None else round(t.deadline - self.t0, 6),
                 repr(t.last_loc)[:80], type(t.waiting_on).__name__)
                for t in self.threads]


def _register_thread(th):
    """Give a harness thread a regular ``threading.Thread`` identity."""
    import threading
    t = threading.Thread(name=f'sim-{th.tid}', daemon=True)
    t._ident = th.ident
    t._started._flag = True
    threading._active[th.ident] = t
    th.data = t


def _park_forever():
    lk = _raw_lock()
    lk.acquire()
    while True:
        lk.acquire()


# -- primitives ---------------------------------------------------------------

_MAX = _thread.TIMEOUT_MAX


def _cur():
    s = ACTIVE
    if s is None:
        return None, None
    return s, s.cur()


class SimLock:
    """Replacement for ``threading.Lock``: real semantics, simulated blocking."""

    __slots__ = ('_locked', '_waiters', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        if timeout > _MAX:
            raise OverflowError('timestamp out of range for platform time_t')
        sim, th = _cur()
        if th is None:
            if not self._locked:
                self._locked = True
                return True
            if not blocking or timeout >= 0:
                return False
            if ACTIVE is None:
                raise HarnessError('lock contention outside the simulation')
            raise HarnessError('foreign thread used a simulated lock')
        sim.point('lock.acquire')
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        deadline = None if timeout < 0 else sim.now + timeout
        while self._locked:
            if self._waiters is None:
                self._waiters = []
            self._waiters.append(th)
            ok = sim.block(self, deadline)
            if th in self._waiters:
                self._waiters.remove(th)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        sim, th = _cur()
        if self._waiters and sim is not None:
            for w in self._waiters:
                sim.wake(w)
            self._waiters.clear()
        if th is not None:
            sim.point('lock.release')

    def _release_at_exit(self):
        if self._locked:
            self._locked = False
            sim = ACTIVE
            if self._waiters and sim is not None:
                for w in self._waiters:
                    sim.wake(w)
                self._waiters.clear()

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None

    def __repr__(self):
        return f'<SimLock locked={self._locked}>'


class SimRLock:
    """Replacement for ``threading.RLock``."""

    __slots__ = ('_block', '_owner', '_count', '__weakref__')

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            if not blocking and timeout != -1:
                raise ValueError(
                    "can't specify a timeout for a non-blocking call")
            if timeout < 0 and timeout != -1:
                raise ValueError('timeout value must be a non-negative number')
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _recursion_count(self):
        return self._count if self._owner == get_ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

    def __repr__(self):
        return f'<SimRLock count={self._count}>'
