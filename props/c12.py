"""C12: FileLock obeys the Lock/RLock contract and leaves no residue."""

import gc
import os

from sim import kernel
from sim.runner import InvalidProgram

from . import lockbase as lb
from .common import pick
from .lockbase import REAL, STUB, ASSUMPTIONS, setup      # noqa

ID = 'C12'
THREADS = True
SCRATCH = True
BUDGET = {'quick': 14000, 'thorough': 450000}
SIM = {'max_steps': 60_000, 'max_time': 5000.0}
FOCUS = ('BaseFileLock', 'UnixFileLock')
RULE = ('seeded sequences of up to 7 (sometimes 14) operations over 1..2 lock '
        'objects x 1..2 threads on one path, some overlapping; OSErrors at '
        'chosen call indices of open/lock/unlock/close (single and double), '
        'KeyboardInterrupt at flock/sleep, wall-clock jumps, releases and '
        'exits by other threads, a free descriptor 0.  Judged against '
        'an executable model of the contract.  Non-trivial: at least one '
        'acquire succeeded and one other operation followed')

EPS = 1e-6
TIMEOUTS = (None, None, -1, 0, 0.03, 0.1, 0.4)


def generate(rng, tier):
    nobj = pick(rng, (1, 1), (2, 2))
    nthr = pick(rng, (5, 1), (9, 2), (1, 3))
    objs = [{'reentrant': rng.random() < 0.5,
             'timeout': rng.choice((-1, -1, 0, 0.05, 0.2)),
             'bare': rng.random() < 0.5}
            for _ in range(nobj)]
    ops = []
    crossing = False
    r = rng.random()
    if r < 0.1:
        # O1 is held by the last thread, the others want O0
        nobj, nthr = 2, rng.choice((2, 3, 3))
        objs = (objs * 2)[:2]
        objs = [dict(o) for o in objs]
        stray(rng, ops, nthr) if r < 0.05 else nested(rng, ops, nthr, objs)
    elif r < 0.16:
        crossing = True
        nobj, nthr, objs = 1, 2, objs[:1]
        cross(rng, ops)
    n = rng.randrange(2, 8) if rng.random() < 0.85 else rng.randrange(8, 15)
    overlap = rng.choice((0, 0, 0.3, 0.6))
    for _ in range(n):
        kind = pick(rng, (6, 'acquire'), (2, 'ctx'), (2, 'with'),
                    (5, 'release'), (1, 'force'), (2, 'exit'), (0.4, 'drop'),
                    (0.3, 'fork'), (1, 'cycle'))
        op = {'op': kind, 't': rng.randrange(nthr), 'o': rng.randrange(nobj)}
        if kind == 'fork' and rng.random() < 0.6:
            op['child'] = lb.fork_ops(rng, nobj)
        if kind in ('acquire', 'ctx', 'cycle'):
            op['blocking'] = rng.random() < 0.7
            op['timeout'] = rng.choice(TIMEOUTS)
            op['poll'] = rng.choice((0.05, 0.01, 0.2))
        elif kind == 'exit':
            op['raises'] = rng.choice((0, 0, 'Body', 'KeyboardInterrupt',
                                       'TimeoutError', 'OSError'))
        op['wait'] = None if rng.random() < overlap else \
            rng.choice((0, 0, 0.01, 0.05, 0.15, 0.5))
        ops.append(op)
    faults, jumps = [], []
    r = rng.random()
    if crossing:
        faults.append([rng.choice(('open', 'lock')), rng.choice((0, 0, 0, 1)),
                       'EMFILE'])
    elif r < 0.35:
        for _ in range(rng.choice((1, 1, 2))):
            faults.append([rng.choice(('open', 'lock', 'unlock', 'close')),
                           rng.randrange(6),
                           rng.choice(('EIO', 'ENOLCK', 'EINTR', 'EMFILE',
                                       'EACCES', 'ENOSPC'))])
    elif r < 0.45:
        faults.append([rng.choice(('lock', 'lock', 'open', 'sleep')),
                       rng.randrange(5), 'KeyboardInterrupt'])
    if rng.random() < 0.2:
        jumps = [[rng.choice((0.02, 0.06, 0.11, 0.3, 0.6)),
                  rng.choice((3600, -3600, 30, -30))]
                 for _ in range(rng.choice((1, 2)))]
    return {'objects': objs, 'ops': ops, 'faults': faults, 'jumps': jumps}


def stray(rng, ops, nthr):
    """O0 is released while unheld and a thread waits for the OS lock."""
    last = nthr - 1
    ops.append({'op': 'acquire', 't': last, 'o': 1, 'blocking': True,
                'timeout': None, 'poll': 0.05, 'wait': 0})
    for t in range(last):
        ops.append({'op': rng.choice(('acquire', 'ctx')), 't': t, 'o': 0,
                    'blocking': True, 'timeout': rng.choice((-1, -1, 3)),
                    'poll': rng.choice((0.05, 0.01)), 'wait': 0})
    ops.append({'op': rng.choice(('release', 'release', 'force')), 't': last,
                'o': 0, 'wait': 0})
    ops.append({'op': 'release', 't': last, 'o': 1,
                'wait': rng.choice((0, 0.1))})
    ops.append({'op': 'acquire', 't': last, 'o': 0, 'blocking': False,
                'timeout': None, 'poll': 0.05, 'wait': 0})


def nested(rng, ops, nthr, objs):
    """Failing and succeeding attempts on a reentrant O0 cross."""
    objs[0]['reentrant'] = True
    last = nthr - 1
    if last == 2 and rng.random() < 0.6:
        # T0 gives up while T1 waits for the in-process lock, then T1 nests
        acq = {'op': 'acquire', 'blocking': True, 'poll': 0.05}
        ops += [dict(acq, t=2, o=1, timeout=None, wait=0),
                dict(acq, t=0, o=0, timeout=rng.choice((0.03, 0.1)),
                     blocking=rng.random() < 0.8, wait=None),
                dict(acq, t=1, o=0, timeout=rng.choice((3, -1)),
                     wait=rng.choice((0.06, 0.2, 0.3))),
                {'op': 'release', 't': 2, 'o': 1, 'wait': 0.1},
                dict(acq, t=1, o=0, timeout=0, wait=0),
                {'op': 'release', 't': 1, 'o': 0, 'wait': 0}]
        return
    if last == 2:
        ops.append({'op': 'acquire', 't': 2, 'o': 1, 'blocking': True,
                    'timeout': None, 'poll': 0.05, 'wait': 0})
    for t in rng.sample((0, 1), 2):
        ops.append({'op': 'acquire', 't': t, 'o': 0,
                    'blocking': rng.random() < 0.8,
                    'timeout': rng.choice((0.03, 0.03, 0.1, None)),
                    'poll': rng.choice((0.01, 0.05)),
                    'wait': rng.choice((None, None, 0, 0.01))})
    if last == 2:
        ops.append({'op': 'release', 't': 2, 'o': 1,
                    'wait': rng.choice((None, None, 0))})
    for t in rng.choice(((0, 0, 1, 1), (1, 1, 0, 0), (0, 1, 0, 1))):
        ops.append({'op': 'acquire', 't': t, 'o': 0, 'blocking': True,
                    'timeout': rng.choice((0.1, 0)), 'poll': 0.05,
                    'wait': rng.choice((None, 0, 0.15))})
        if rng.random() < 0.5:
            ops.append({'op': 'release', 't': t, 'o': 0, 'wait': 0})


def cross(rng, ops):
    """One attempt fails with an OS error while another comes and goes."""
    for t in rng.sample((0, 1), 2):
        ops.append({'op': rng.choice(('cycle', 'cycle', 'acquire')), 't': t,
                    'o': 0, 'blocking': rng.random() < 0.5,
                    'timeout': rng.choice((None, 0, 0.1)),
                    'poll': 0.01, 'wait': None})
    ops.append({'op': 'cycle', 't': rng.randrange(2), 'o': 0, 'blocking': True,
                'timeout': 0, 'poll': 0.01, 'wait': rng.choice((None, 0))})


class Op:
    """One executed operation."""

    def __init__(self, n, spec):
        self.n = n
        self.spec = spec
        self.s = self.e = None       # virtual times
        self.seq0 = self.seq1 = None
        self.res = None              # True/False/None/('exc', type)
        self.faulted = False
        self.then = None
        self.void = False            # a release by a thread that may not
        if spec['op'] == 'cycle':
            self.spec = dict(spec, op='acquire')
            self.then = Op(n, dict(spec, op='release'))

    def __repr__(self):
        sp = self.spec
        return (f'#{self.n} T{sp["t"]} O{sp["o"]} {sp["op"]}'
                f'({sp.get("blocking")},{sp.get("timeout")}) [{self.s}..'
                f'{self.e}] -> {self.res}')


class Body(Exception):
    """Raised by a protected section."""


class Worker:
    """A thread that performs one operation at a time on request."""

    def __init__(self, sim, i, run_op):
        self.sim = sim
        self.job = None
        self.stop = False
        self.run_op = run_op
        self.th = sim.spawn(self.loop, name=f'W{i}')

    def loop(self):
        sim = self.sim
        while True:
            while self.job is None:
                if self.stop:
                    return
                sim.block('idle')
            self.run_op(self.job)
            if self.job.res is True and self.job.then is not None:
                self.job = self.job.then     # 'cycle': release at once
                self.run_op(self.job)
            self.job = None

    def submit(self, op):
        self.job = op
        self.sim.wake(self.th)

    def busy(self):
        return self.job is not None


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.w, self.path = lb.world(sim, prog)
        self.w.fault = lb.fault_fn(sim, prog['faults'])
        self.mod = lb.MODS[0]
        self.objs = [self.make(o) for o in range(len(prog['objects']))]
        self.inherited = []      # descriptors a forked child still has
        n = 1 + max([o['t'] for o in prog['ops']], default=0)
        # model: per object, the holding thread and the stack of holds
        self.holder = [None] * len(self.objs)
        self.stack = [[] for _ in self.objs]
        self.cms = {}            # (t, o) -> list of (kind, exit callable)
        self.ops = []
        self.viol = []
        nsleep = [0]

        def on_sleep(th, secs):
            i = nsleep[0]
            nsleep[0] += 1
            if th.name.startswith('W') and self.w.fault is not None:
                exc = self.w.fault('sleep', i, th)
                if exc is not None:
                    sim.count(f'fault.sleep.{type(exc).__name__}')
                    raise exc
        sim.sleep_hooks.append(on_sleep)
        self.workers = [Worker(sim, i, self.run_op) for i in range(n)]

    def make(self, o):
        conf = self.prog['objects'][o]
        kw = {k: conf[k] for k in ('timeout', 'reentrant')}
        if conf.get('bare'):     # leave out what has the documented default
            if kw['timeout'] == -1:
                del kw['timeout']
            if not kw['reentrant']:
                del kw['reentrant']
        return self.mod.FileLock(self.path, **kw)

    def acquire_args(self, sp):
        args = {'blocking': sp['blocking'], 'timeout': sp['timeout'],
                'poll_interval': sp['poll']}
        if self.prog['objects'][sp['o']].get('bare'):
            if sp['blocking']:
                del args['blocking']
            if sp['timeout'] is None:
                del args['timeout']
            if sp['poll'] == 0.05:
                del args['poll_interval']
        return args

    def fork(self):
        """A child that never touches the lock keeps its descriptors."""
        self.sim.count('fault.fork_inherits_descriptors')
        for fd in self.w.open_fds():
            self.inherited.append(os.dup(fd))

    def child(self, op):
        """A child that uses the inherited objects; it holds none of them."""
        held = any(h is not None for h in self.holder)
        for what, o, *res in lb.forked(self.sim, op.spec['child'],
                                       dict(enumerate(self.objs)), self.path,
                                       self.mod):
            if what == 'failed':
                self.flag('fork-failed', f'{op}: {o}')
            elif what == 'is_locked' and res[0] is not False:
                self.flag('child-locked', f'{op}: is_locked of O{o} is '
                          f'{res[0]!r} in a forked child')
            elif what == 'try' and res[0] is not (not held):
                self.flag('child-acquire', f'{op}: a forked child got '
                          f'{res[0]!r} through O{o}, held by the parent: '
                          f'{held}')

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 10:
            self.viol.append((kind, detail))

    # -- executing one operation in its worker thread --------------------------------

    def run_op(self, op):
        sim, sp = self.sim, op.spec
        t, o = sp['t'], sp['o']
        if sp['op'] == 'fork':
            return self.child(op)
        lock = self.objs[o]
        nf = len(sim.data.get('faulted', ()))
        kind = sp['op']
        if kind in ('release', 'force', 'exit', 'drop'):
            # the hold ends when release begins (it may end any time after)
            self.drop_hold(op, t, o, kind)
        op.s = sim.time
        op.seq0 = sim.event('begin', op.n, t, o, kind)
        res = None
        try:
            if kind == 'acquire':
                res = lock.acquire(**self.acquire_args(sp))
            elif kind == 'ctx':
                cm = lock.acquire_ctx(**self.acquire_args(sp))
                cm.__enter__()
                self.cms.setdefault((t, o), []).append(cm.__exit__)
                res = True
            elif kind == 'with':
                got = type(lock).__enter__(lock)
                self.cms.setdefault((t, o), []).append(
                    lambda *exc: type(lock).__exit__(lock, *exc))
                res = True
                if got is not lock:
                    self.flag('with-value', f'with ... as x gave {got!r}')
            elif kind == 'release':
                res = lock.release()
            elif kind == 'force':
                res = lock.release(force=True)
            elif kind == 'exit':
                stack = self.cms.get((t, o))
                if stack and sp.get('raises'):
                    # the body of the with statement failed
                    exc = {'KeyboardInterrupt': KeyboardInterrupt,
                           'TimeoutError': TimeoutError,
                           'OSError': OSError}.get(sp['raises'], Body)()
                    if stack.pop()(type(exc), exc, None):
                        self.flag('swallowed', f'{op} swallowed the exception '
                                  'of the section')
                elif stack:
                    stack.pop()(None, None, None)
            elif kind == 'drop':
                fresh = self.make(o)
                self.cms = {k: v for k, v in self.cms.items() if k[1] != o}
                self.objs[o] = fresh
                del lock
                gc.collect()
        except kernel.HarnessError:
            raise
        except BaseException as e:
            res = ('exc', type(e).__name__)
            del e
        op.faults = [f[1:] for f in sim.data.get('faulted', ())[nf:]
                     if f[0] == sim.current.tid]
        op.faulted = bool(op.faults)
        op.e = sim.time
        op.res = res
        op.seq1 = sim.event('end', op.n, repr(res))
        if kind in ('acquire', 'ctx', 'with'):
            self.after_acquire(op, t, o)
        elif isinstance(res, tuple) and not (
                op.void and res[1] == 'RuntimeError'):
            self.flag('release-raised', f'{op}')

    def drop_hold(self, op, t, o, kind):
        if kind == 'exit' and not self.cms.get((t, o)):
            return
        if self.holder[o] is None:
            return
        if self.holder[o] != t:
            self.sim.count('fault.release_by_another_thread')
            if kind in ('release', 'exit') and \
                    self.prog['objects'][o]['reentrant']:
                op.void = True       # as for an RLock: only its owner may
                return
        if kind in ('force', 'drop'):
            ended, self.stack[o] = self.stack[o], []
        else:
            ended = [self.stack[o].pop()]
        for h in ended:
            h.ending = op
        if not self.stack[o]:
            self.holder[o] = None

    def after_acquire(self, op, t, o):
        sp = op.spec
        if op.res is True:
            if self.holder[o] is not None and (
                    self.holder[o] != t
                    or not self.prog['objects'][o]['reentrant']):
                self.flag('acquired-held', f'{op} although thread '
                          f'{self.holder[o]} holds this object')
            for p, h in enumerate(self.holder):
                if p != o and h is not None:
                    self.flag('acquired-held', f'{op} although thread {h} '
                              f'holds the lock through object {p}')
            self.holder[o] = t
            self.stack[o].append(op)
            if self.objs[o].is_locked is not True:
                self.flag('not-locked', f'{op} but is_locked is '
                          f'{self.objs[o].is_locked!r}')
        elif op.res is False:
            if sp['op'] != 'acquire':
                self.flag('false-entry', f'{op}')
        elif isinstance(op.res, tuple):
            exc = op.res[1]
            if op.faulted and not all(
                    k in ('open', 'lock') and what != 'KeyboardInterrupt'
                    for k, i, what in op.faults):
                return
            # an OS error while opening or locking is a failed attempt
            if sp['op'] == 'acquire' or exc != 'TimeoutError':
                self.flag('acquire-raised', f'{op}')
        else:
            self.flag('acquire-result', f'{op}')

    # -- the controller ---------------------------------------------------------------

    def allowed(self, sp):
        """Is this operation inside the contract right now?"""
        t, o, kind = sp['t'], sp['o'], sp['op']
        if t >= len(self.workers) or o >= len(self.objs):
            raise InvalidProgram('no such thread/object')
        if self.workers[t].busy():
            return False
        if kind in ('acquire', 'ctx', 'with', 'cycle'):
            if kind == 'with':
                timeout = self.prog['objects'][o]['timeout']
                forever = timeout < 0
            else:
                blocking, timeout = sp['blocking'], sp['timeout']
                if timeout is None:
                    timeout = self.prog['objects'][o]['timeout'] \
                        if blocking else -1
                    forever = blocking and timeout < 0
                else:
                    forever = timeout < 0 and blocking
            if forever:
                # a thread must not block for ever on what it holds itself
                for p, h in enumerate(self.holder):
                    if h == t and not (
                            p == o and self.prog['objects'][o]['reentrant']):
                        return False
            return True
        if kind == 'exit' and not self.cms.get((t, o)):
            return False
        return True

    def alone(self, sp):
        """Releasing what the caller does not hold, while another thread may
        be getting it, is a misuse (it would free the other thread's hold), so
        such an operation runs when nothing else uses the object."""
        t, o, kind = sp['t'], sp['o'], sp['op']
        if kind in ('release', 'force') and self.os_held(o):
            return False
        if self.foreign(sp):
            return False     # whoever else uses the object has to wait
        return kind == 'drop' or (kind in ('release', 'force', 'exit')
                                  and self.holder[o] != t)

    def foreign(self, sp):
        return sp['op'] in ('release', 'force') \
            and self.holder[sp['o']] not in (None, sp['t'])

    def ready_for_foreign(self, sp):
        """Nothing but attempts of others to get the object goes on."""
        o = sp['o']
        return not any(w.busy() and w.job.spec['o'] == o and (
            i == self.holder[o]
            or w.job.spec['op'] not in ('acquire', 'ctx', 'with'))
            for i, w in enumerate(self.workers))

    def unheld_release(self, sp):
        return sp['op'] in ('release', 'force') \
            and self.holder[sp['o']] is None

    def os_held(self, o):
        """Nobody can get `o` now: it is unheld, and the OS lock is held
        through another object."""
        return self.holder[o] is None and any(
            h is not None for h in self.holder) and not any(
            w.busy() and w.job.spec['op'] not in ('acquire', 'ctx', 'with')
            for w in self.workers)

    def others_on(self, sp):
        return any(w.busy() and w.job.spec['o'] == sp['o']
                   for i, w in enumerate(self.workers) if i != sp['t'])

    def run(self):
        sim = self.sim
        for at, by in self.prog['jumps']:
            sim.spawn(self.jump, name='clock', args=(at, by))
        for n, sp in enumerate(self.prog['ops']):
            if sp['op'] == 'fork':
                self.settle()
                if not any(w.busy() for w in self.workers) \
                        and not self.prog['faults']:
                    if 'child' not in sp:
                        self.fork()
                        continue
                    if sp['t'] >= len(self.workers):
                        raise InvalidProgram('no such thread')
                    self.workers[sp['t']].submit(Op(n, sp))
                    self.settle()
                continue
            if not self.allowed(sp):
                continue
            if self.unheld_release(sp) or self.foreign(sp):
                self.settle()
                if not self.allowed(sp) or (
                        self.foreign(sp) and not self.ready_for_foreign(sp)):
                    continue
            if self.alone(sp):
                self.settle()
                if self.others_on(sp) or not self.allowed(sp):
                    continue
            op = Op(n, sp)
            self.ops.append(op)
            exclusive = self.alone(sp) or self.unheld_release(sp) \
                or self.foreign(sp)
            self.workers[sp['t']].submit(op)
            if sp['wait'] is None and not exclusive:
                sim.point('overlap')
                continue
            self.settle()
            if sp['wait'] and sp['wait'] > 0:
                sim.sleep(sp['wait'])
                self.settle()
        self.settle()
        self.final()

    def jump(self, at, by):
        self.sim.sleep(at)
        self.sim.wall_base += by
        self.sim.count('fault.wall_clock_jump')

    def settle(self):
        """Let everything run until only time could change something."""
        sim = self.sim
        while True:
            others = [t for t in sim.threads if t.state == kernel.RUNNABLE
                      and t is not sim.current]
            if not others:
                break
            sim.yield_()
        self.compare()

    def compare(self):
        if any(w.busy() and w.job.spec['op'] not in ('acquire', 'ctx', 'with')
               for w in self.workers):
            return
        pend = [w.job for w in self.workers if w.busy()]
        for o, lock in enumerate(self.objs):
            want = self.holder[o] is not None
            if lock.is_locked is not want:
                self.flag('is-locked', f'object {o}: is_locked='
                          f'{lock.is_locked!r}, model says {want}')
        if not pend:
            held = sum(h is not None for h in self.holder)
            fds = len(self.w.open_fds())
            if fds != held:
                self.flag('fd-leak', f'{fds} descriptors open, {held} locks '
                          f'held')

    def final(self):
        """Release everything, then anybody can acquire again."""
        sim = self.sim
        for _ in range(60):
            if not any(w.busy() for w in self.workers):
                break
            # release holds so that pending acquires can go on
            for o, h in enumerate(self.holder):
                if h is not None and not self.workers[h].busy():
                    self.do(h, o, 'force')
            sim.sleep(0.5)
            self.settle()
        for w in self.workers:
            if w.busy():
                self.flag('acquire-stuck', f'{w.job} never returns although '
                          f'nothing holds the lock')
                return
        for o, h in enumerate(self.holder):
            if h is not None:
                self.do(h, o, 'force')
        self.w.fault = None
        self.compare()
        for o in range(len(self.objs)):
            for t in range(len(self.workers)):
                op = self.do(t, o, 'acquire', blocking=False, timeout=None,
                             poll=0.01)
                if op.res is not True:
                    self.flag('not-reacquirable', f'after everything was '
                              f'released: {op}')
                else:
                    self.do(t, o, 'release')
                    self.compare()
        fresh = self.mod.FileLock(self.path)
        if fresh.acquire(blocking=False) is not True:
            self.flag('not-reacquirable', 'a fresh object cannot acquire')
        fresh.release()
        if fresh.is_locked:
            self.flag('is-locked', 'still locked after release')
        self.compare()
        for w in self.workers:
            w.stop = True
            sim.wake(w.th)
        for fd in self.inherited:
            os.close(fd)

    def do(self, t, o, kind, **kw):
        op = Op(100 + len(self.ops), dict(op=kind, t=t, o=o, **kw))
        self.ops.append(op)
        self.workers[t].submit(op)
        self.settle()
        return op


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


# -- the history oracle ----------------------------------------------------------------

def judge(w, sim):
    viol = []
    INF = float('inf')
    acq = [op for op in w.ops if op.spec['op'] in ('acquire', 'ctx', 'with')]

    def span(op):
        """(seq0, seq1, t0, t1): when `op` contended for or held the lock."""
        if op.seq0 is None:
            return None
        if op.seq1 is None:
            return op.seq0, INF, op.s, INF
        if op.res is not True:
            return op.seq0, op.seq1, op.s, op.e
        end = getattr(op, 'ending', None)
        if end is None or end.seq1 is None:
            return op.seq0, INF, op.s, INF
        return op.seq0, end.seq1, op.s, end.e

    spans = {id(op): span(op) for op in acq}
    for op in acq:
        if op.seq1 is None:
            continue
        sp = op.spec
        conf = w.prog['objects'][sp['o']]
        if sp['op'] == 'with':
            blocking, timeout, poll = True, conf['timeout'], 0.05
        else:
            blocking, timeout, poll = sp['blocking'], sp['timeout'], sp['poll']
            if timeout is None:
                timeout = conf['timeout'] if blocking else -1
            elif timeout >= 0:
                blocking = True
        took = op.e - op.s
        # how long it may take
        if not blocking and took > EPS:
            viol.append(('slow-nonblocking', f'{op} took {took:.4f} s'))
        if blocking and timeout >= 0 and took > 2 * timeout + poll + EPS:
            viol.append(('slow-timed', f'{op} took {took:.4f} s, timeout '
                         f'{timeout}, poll {poll}'))
        failed = op.res is False or op.res == ('exc', 'TimeoutError')
        if not failed or op.faulted:
            continue
        if blocking and timeout < 0:
            viol.append(('false-blocking', f'{op}'))
            continue
        others = [s for o2, s in ((o2, spans[id(o2)]) for o2 in acq)
                  if o2 is not op and s is not None
                  and s[0] < op.seq1 and s[1] > op.seq0]
        if not others:
            viol.append(('false-though-free', f'{op} although nothing else '
                         f'used the lock'))
            continue
        if blocking and timeout >= 0:
            if took < timeout - EPS:
                viol.append(('false-early', f'{op} gave up after {took:.4f} s '
                             f'of {timeout}'))
            gap, at = 0.0, op.s
            for a, b in sorted((s[2], s[3]) for s in others):
                if a >= op.s + timeout:
                    break
                gap = max(gap, a - at)
                at = max(at, b)
            gap = max(gap, op.s + timeout - at)
            if gap > poll + 1e-3:
                viol.append(('false-though-free', f'{op} although the lock was '
                             f'free for {gap:.4f} s'))
    return viol


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    viol = list(w.viol)
    if outcome != 'done':
        pend = [repr(x.job) for x in w.workers if x.busy()]
        viol.append((f'stuck-{outcome}', f'{outcome}: {pend}'))
    viol += judge(w, sim)
    ok = [op for op in w.ops if op.n < 100 and op.res is True]
    sim.data['nontrivial'] = bool(ok) and len(w.ops) > 1
    return viol
