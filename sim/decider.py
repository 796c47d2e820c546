"""
Deciders: who runs next, and which thread stalls for how long.

All randomness comes from one ``random.Random`` seeded by the run.  Every choice
that differs from the default policy (keep running; otherwise round robin) is
recorded as an override keyed by (thread, its own step count), which makes the
recorded schedule robust under minimisation: dropping one override leaves the
others meaningful.
"""

import random

from .kernel import RUNNABLE


def _rr(th, run):
    """Round robin: first runnable after `th`, cyclically, by thread id."""
    first = None
    for t in run:
        if t.tid > th.tid:
            return t
        if first is None:
            first = t
    return first if first is not None else th


class Decider:
    """Default policy + recording; base of all strategies."""

    name = 'seq'

    def __init__(self):
        self.overrides = {}

    def attach(self, sim):
        self.sim = sim

    def new_thread(self, th):
        pass

    # strategy hooks; may return None for "default"
    def _point(self, th, kind, loc):
        return None

    def _block(self, th, run):
        return None

    def _yield(self, th, others):
        return None

    # kernel interface
    def at_point(self, th, kind, loc):
        d = self._point(th, kind, loc)
        if d is None or d is th:
            return None
        if d.__class__ is tuple:
            self.overrides[f'{th.tid}.{th.k}'] = ['s', d[1]]
        else:
            self.overrides[f'{th.tid}.{th.k}'] = d.tid
        return d

    def on_block(self, th, run):
        d = self._block(th, run)
        default = _rr(th, run)
        if d is None or d is default:
            return default
        self.overrides[f'{th.tid}.{th.k}b'] = d.tid
        return d

    def on_yield(self, th, others):
        d = self._yield(th, others)
        default = _rr(th, others)
        if d is None or d is default:
            return default
        self.overrides[f'{th.tid}.{th.k}y'] = d.tid
        return d


class Replay(Decider):
    name = 'replay'

    def __init__(self, overrides):
        super().__init__()
        self.plan = dict(overrides)
        self.used = set()

    def _get(self, key):
        v = self.plan.get(key)
        if v is not None:
            self.used.add(key)
        return v

    def _find(self, tid, among):
        for t in among:
            if t.tid == tid:
                return t
        return None

    def _point(self, th, kind, loc):
        v = self._get(f'{th.tid}.{th.k}')
        if v is None:
            return None
        if v.__class__ is not int:
            return ('stall', v[1])
        t = self._find(v, self.sim.threads)
        return t if t is not None and t.state == RUNNABLE else None

    def _block(self, th, run):
        v = self._get(f'{th.tid}.{th.k}b')
        return None if v is None else self._find(v, run)

    def _yield(self, th, others):
        v = self._get(f'{th.tid}.{th.k}y')
        return None if v is None else self._find(v, others)


class _Seeded(Decider):

    def __init__(self, rng, stalls=(), stall_p=0.0):
        super().__init__()
        self.rng = rng
        self.stalls = stalls
        self.stall_p = stall_p if stalls else 0.0

    def _runnable(self):
        return [t for t in self.sim.threads if t.state == RUNNABLE]


class RandomWalk(_Seeded):
    name = 'random'

    def __init__(self, rng, p, **kw):
        super().__init__(rng, **kw)
        self.p = p

    def _point(self, th, kind, loc):
        r = self.rng.random()
        if r >= self.p:
            return None
        if self.stall_p and self.rng.random() < self.stall_p:
            return ('stall', self.rng.choice(self.stalls))
        run = self._runnable()
        if len(run) < 2:
            return None
        return self.rng.choice(run)

    def _block(self, th, run):
        return run[0] if len(run) == 1 else self.rng.choice(run)

    def _yield(self, th, others):
        return self.rng.choice(others)


class PCT(_Seeded):
    """Probabilistic concurrency testing: random priorities, d change points."""
    name = 'pct'

    def __init__(self, rng, depth, horizon, **kw):
        super().__init__(rng, **kw)
        self.changes = {rng.randrange(horizon) for _ in range(depth)}
        self.low = 0.0
        self.run_len = 0

    def new_thread(self, th):
        th.prio = 1.0 + self.rng.random()

    def _demote(self, th):
        self.low -= 1.0
        th.prio = self.low

    def _point(self, th, kind, loc):
        steps = self.sim.steps
        self.run_len += 1
        if steps in self.changes:
            if self.stall_p and self.rng.random() < self.stall_p:
                return ('stall', self.rng.choice(self.stalls))
            self._demote(th)
        elif self.run_len > 4000:
            self._demote(th)       # fairness
            self.run_len = 0
        best = th
        for t in self.sim.threads:
            if t.state == RUNNABLE and t.prio > best.prio:
                best = t
        if best is not th:
            self.run_len = 0
        return best

    def _block(self, th, run):
        self.run_len = 0
        return max(run, key=lambda t: t.prio)

    def _yield(self, th, others):
        self._demote(th)
        self.run_len = 0
        return max(others, key=lambda t: t.prio)


class Hold(_Seeded):
    """
    Suspend the thread that reaches one of a few chosen source lines, for a
    chosen number of steps (or until everything else is blocked), on top of a
    light random walk: aims straight at narrow windows.
    """
    name = 'hold'

    def __init__(self, rng, targets, p, **kw):
        super().__init__(rng, **kw)
        self.targets = targets     # loc -> [nth, hold_steps]
        self.p = p
        self.held = {}             # tid -> release step

    def _free(self, run):
        now = self.sim.steps
        free = []
        for t in run:
            rel = self.held.get(t.tid)
            if rel is not None:
                if rel > now:
                    continue
                del self.held[t.tid]
            free.append(t)
        if not free:
            t = self.rng.choice(run)
            self.held.pop(t.tid, None)
            free = [t]
        return free

    def _point(self, th, kind, loc):
        tg = self.targets.get(loc) if loc is not None else None
        if tg is not None:
            tg[0] -= 1
            if tg[0] == 0:
                if self.stall_p and self.rng.random() < self.stall_p:
                    return ('stall', self.rng.choice(self.stalls))
                run = self._runnable()
                if len(run) > 1 or tg[1] < 0:
                    self.held[th.tid] = self.sim.steps + abs(tg[1])
                    others = [t for t in run if t is not th]
                    if others:
                        return self.rng.choice(self._free(others))
                return None
        if self.held or (self.p and self.rng.random() < self.p):
            run = self._runnable()
            if len(run) < 2:
                return None
            if self.held:
                free = self._free(run)
                if th in free and self.rng.random() >= self.p:
                    return None
                return self.rng.choice(free)
            return self.rng.choice(run)
        return None

    def _block(self, th, run):
        if self.held:
            run = self._free(run)
        return run[0] if len(run) == 1 else self.rng.choice(run)

    def _yield(self, th, others):
        if self.held:
            others = self._free(others)
        return self.rng.choice(others)


def make(seed, lines, focus, *, threads=True, stalls=(), stall_p=0.0):
    """Swarm: pick a strategy and its knobs for this run."""
    rng = random.Random(seed)
    if not threads:
        return RandomWalk(rng, 0.0)
    kw = {}
    if stalls and rng.random() < 0.5:
        kw = dict(stalls=stalls, stall_p=stall_p)
    r = rng.random()
    if r < 0.04:
        return Decider()
    if r < 0.30:
        return RandomWalk(rng, rng.choice((0.01, 0.03, 0.1, 0.3, 0.6)), **kw)
    if r < 0.60 or not lines:
        return PCT(rng, rng.choice((1, 2, 2, 3, 4)),
                   rng.choice((60, 150, 400, 400, 1000, 2500)), **kw)
    foc = [ln for ln in lines if any(ln[0].startswith(f) for f in focus)] \
        or lines
    targets = {}
    for _ in range(rng.choice((1, 1, 2, 2, 3, 5))):
        ln = rng.choice(foc if rng.random() < 0.8 else lines)
        targets[ln] = [rng.choice((1, 1, 1, 2, 2, 3, 4, 6)),
                       rng.choice((15, 40, 100, 300, 10**9))]
    return Hold(rng, targets, rng.choice((0.0, 0.0, 0.02, 0.1)), **kw)
