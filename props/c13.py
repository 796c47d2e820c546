"""C13: a crashed holder never leaves the FileLock stuck."""

import os
import signal
import sys

from sim import kernel, lines, osx
from sim.runner import InvalidProgram

from . import lockbase as lb
from .common import UNDER_TEST, pick, quiet
from .lockbase import setup      # noqa

ID = 'C13'
THREADS = True
SCRATCH = True
BUDGET = {'quick': 12000, 'thorough': 400000}
SIM = {'max_steps': 60_000, 'max_time': 3000.0}
FOCUS = ('BaseFileLock', 'UnixFileLock')
REAL = lb.REAL + ['in 1 of 4 runs the victims are real forked processes that '
                  'SIGKILL themselves']
STUB = lb.STUB
ASSUMPTIONS = lb.ASSUMPTIONS + [
    'a surviving forked child was forked by os.fork (its hooks run), not '
    'while another thread of its parent was in the middle of an acquire']
RULE = ('seeded programs: 1..3 victim processes (1..2 threads, 1..2 rounds of '
        'acquire/acquire_ctx/with, nested, forced release, drop) each killed '
        'at its k-th switch point (any line of filelock or any open, lock, '
        'sleep, unlock, close call) or at a virtual instant while it waits, '
        '0..2 surviving contenders, then a fresh process; or one to three real '
        'processes in sequence, each SIGKILLed at its k-th line, some leaving '
        'a forked child behind.  Non-trivial: '
        'at least one victim died inside filelock code or while holding')
EPS = 1e-6


def rounds(rng, n):
    out = []
    for _ in range(n):
        re = rng.random() < 0.4
        out.append({
            'reentrant': re,
            'mode': pick(rng, (4, 'acquire'), (3, 'ctx'), (3, 'with')),
            'blocking': rng.random() < 0.8,
            'timeout': rng.choice((None, None, -1, 0, 0.05, 0.4)),
            'poll': rng.choice((0.05, 0.01)),
            'hold': rng.choice((None, 0, 0.01, 0.2)),
            'nest': rng.randrange(3) if re else 0,
            'end': pick(rng, (5, 'release'), (2, 'force'), (1, 'drop'),
                        (1, 'keep')),
            'gap': rng.choice((None, 0, 0.02))})
    return out


def generate(rng, tier):
    if rng.random() < 0.25:
        return {'mode': 'real', 'victims': [
            {'rounds': [dict(r, hold=None, gap=None) for r in
                        rounds(rng, rng.choice((1, 1, 2)))],
             'k': rng.randrange(0, rng.choice((14, 45, 90))),
             'linger': rng.random() < 0.4}
            for _ in range(rng.choice((1, 1, 2, 3)))],
            'existing': rng.random() < 0.3, 'threads': []}
    victims = []
    for _ in range(pick(rng, (5, 1), (3, 2), (1, 3))):
        nthr = pick(rng, (3, 1), (1, 2))
        victims.append({
            'threads': [{'start': rng.choice((0, 0, 0.005)),
                         'own': rng.random() < 0.5,
                         'rounds': rounds(rng, rng.choice((1, 1, 2)))}
                        for _ in range(nthr)],
            'k': rng.randrange(0, rng.choice((14, 40, 40, 100)))
            if rng.random() < 0.8 else None,
            'at': rng.choice((0.003, 0.03, 0.12, 0.3))})
    cont = [{'start': rng.choice((0, 0, 0.002, 0.05, 0.15)),
             'rounds': [dict(r, end='release' if r['end'] == 'keep'
                             else r['end'])
                        for r in rounds(rng, rng.choice((1, 2)))]}
            for _ in range(pick(rng, (3, 0), (4, 1), (2, 2)))]
    return {'mode': 'sim', 'victims': victims, 'contenders': cont,
            'existing': rng.random() < 0.3}


class Attempt:
    def __init__(self, who, proc, s, seq, poll, limit):
        self.who, self.proc, self.s, self.seq = who, proc, s, seq
        self.poll, self.limit = poll, limit
        self.e = self.ok = None         # when the acquire ended, how
        self.rel = None                 # when the hold ended
        self.fd = False


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.w, self.path = lb.world(sim, prog)
        if prog['existing']:
            with open(self.path, 'w') as f:
                f.write('left over')
        self.sec = lb.Section(sim)
        self.att = []
        self.deaths = []
        self.interesting = 0

    def process(self, i, name):
        if i >= len(lb.MODS):
            raise InvalidProgram('too many processes')
        p = lb.proc(self.sim, i, self.w)
        p.name = name

        def died():
            self.deaths.append((p, self.sim.time))
            for t in self.sim.threads:
                if t.proc is p:
                    self.sec.died(t.tid)
            for a in self.att:
                if a.proc is p and a.rel is None:
                    self.interesting += 1
                    a.rel = self.sim.time
                    if a.e is None:
                        a.e, a.ok = self.sim.time, 'died'
            self.sim.event('crash', name)
        p.on_crash.insert(0, died)
        return p

    def use(self, who, proc, r, lock):
        """One round on `lock`."""
        sim, sec = self.sim, self.sec
        blocking, timeout = r['blocking'], r['timeout']
        if r['mode'] == 'with':
            blocking, timeout = True, None
        limit = -1.0
        if timeout is None:
            limit = -1.0 if blocking else 0.0
        elif timeout >= 0:
            limit = timeout
        elif not blocking:
            limit = 0.0
        poll = 0.05 if r['mode'] == 'with' else r['poll']
        a = Attempt(who, proc, sim.time, sim.event('try', who), poll, limit)
        self.att.append(a)

        def got():
            a.e, a.ok = sim.time, True
            sec.enter(who)

        def nested(n):
            if n and quiet(lambda: lock.acquire()):
                nested(n - 1)
                lock.release()
            elif r['hold'] is not None:
                sim.sleep(r['hold'])

        def end(a=a):
            a.rel = sim.time
            sim.event('released', who)

        def lost():
            a.e, a.ok = sim.time, False
            a.rel = sim.time

        kw = {'blocking': r['blocking'], 'timeout': r['timeout'],
              'poll_interval': r['poll']}
        try:
            if r['mode'] == 'with':
                with lock:
                    got()
                    nested(r['nest'])
                    sec.leave(who)
                end()
            elif r['mode'] == 'ctx':
                with lock.acquire_ctx(**kw):
                    got()
                    nested(r['nest'])
                    sec.leave(who)
                end()
            else:
                if not lock.acquire(**kw):
                    return lost()
                got()
                for _ in range(r['nest']):
                    lock.acquire()
                nested(0)
                if r['end'] == 'keep':
                    return
                sec.leave(who)
                if r['end'] == 'drop':
                    lock.__del__()
                elif r['end'] == 'force':
                    lock.release(force=True)
                else:
                    for _ in range(r['nest'] + 1):
                        lock.release()
                end()
        except UNDER_TEST as e:
            if a.e is None:
                lost()
            elif a.rel is None:
                end()
            if not isinstance(e, TimeoutError):
                sec.flag('raised', f'{who}: {e!r}')

    def thread(self, who, proc, spec, locks):
        sim = self.sim
        sim.sleep(spec['start'])
        for i, r in enumerate(spec['rounds']):
            key = (spec.get('own') and who, r['reentrant'])
            lock = locks.get(key)
            if lock is None:
                lock = locks[key] = proc.mod.FileLock(
                    self.path, reentrant=r['reentrant'])
            self.use(f'{who}.{i}', proc, r, lock)
            if r['end'] == 'keep' and r['mode'] == 'acquire':
                sim.block('holding for ever')
                return
            if r['gap'] is not None:
                sim.sleep(r['gap'])


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    if prog['mode'] == 'real':
        return run_real(sim, prog, w)
    n = 0
    vthreads, cthreads, procs = [], [], []
    for vi, v in enumerate(prog['victims']):
        p = w.process(n, f'V{vi}')
        n += 1
        procs.append(p)
        if v['k'] is not None:
            sim.crash_plans[p] = v['k']
        locks = {}
        for ti, t in enumerate(v['threads']):
            vthreads.append(sim.spawn(
                w.thread, name=f'V{vi}.{ti}', proc=p,
                args=(f'V{vi}.{ti}', p, t, locks)))
    for ci, c in enumerate(prog['contenders']):
        p = w.process(n, f'C{ci}')
        n += 1
        cthreads.append(sim.spawn(w.thread, name=f'C{ci}', proc=p,
                                  args=(f'C{ci}', p, c, {})))
    for vi, v in enumerate(prog['victims']):
        if v['k'] is None:
            sim.sleep(max(0, v['at'] - sim.time))
            if procs[vi].alive:
                sim.crash(procs[vi])
    # whatever did not reach its k-th point dies now
    sim.sleep(2.0)
    for p in procs:
        if p.alive:
            sim.crash(p)
    for t in cthreads:
        if not sim.join(t, 20):
            w.sec.flag('contender-stuck', f'{t.name} has not ended 20 s after '
                       f'the last crash')
            return
    # nothing uses the lock any more: a fresh process gets it at once
    p = w.process(n, 'F')
    done = sim.spawn(fresh, name='F', proc=p, args=(sim, w, p))
    sim.join(done)


def fresh(sim, w, p):
    for kw in ({'blocking': False}, {'timeout': 0.2}, {}):
        lock = p.mod.FileLock(w.path)
        t0 = sim.time
        try:
            ok = lock.acquire(**kw)
        except UNDER_TEST as e:
            ok = repr(e)
        if ok is not True or sim.time > t0 + EPS:
            w.sec.flag('stuck', f'a fresh process: acquire({kw}) -> {ok} '
                       f'after {sim.time - t0:.3f} s')
            return
        lock.release()


# -- real processes --------------------------------------------------------------------

def run_real(sim, prog, w):
    fresh_p = w.process(5, 'F')
    for vi, v in enumerate(prog['victims']):
        sim.event('real', vi, v['k'])
        ling = Lingerer() if v.get('linger') else None
        saved, kernel.ACTIVE = kernel.ACTIVE, None
        pid = os.fork()
        if pid == 0:
            try:
                victim(v, w.path, ling)
            except BaseException:       # noqa
                pass
            finally:
                os.kill(os.getpid(), signal.SIGKILL)
        kernel.ACTIVE = saved
        _, status = os.waitpid(pid, 0)
        sim.count('fault.real_sigkill')
        sim.event('died', status)
        w.interesting += 1
        if ling is not None:
            ling.listen()
        done = sim.spawn(fresh, name=f'F{vi}', proc=fresh_p,
                         args=(sim, w, fresh_p))
        sim.join(done)
        if ling is not None:
            if ling.alive():
                sim.count('fault.real_sigkill_child_survives')
                done = sim.spawn(survivor, name=f'G{vi}', proc=fresh_p,
                                 args=(sim, w, fresh_p, ling))
                sim.join(done)
            ling.end()


class Lingerer:
    """A child forked by a victim in its section, that outlives it."""

    def __init__(self):
        self.cmd = os.pipe()
        self.ans = os.pipe()
        self.seen = b''

    # in the victim

    def fork(self, lock, path, mod):
        pid = os.fork()
        if pid == 0:
            signal.alarm(20)
            sys.monitoring.register_callback(
                lines.TOOL, sys.monitoring.events.LINE, None)
            for fd in (self.cmd[1], self.ans[0]):
                osx._real_close(fd)
            try:
                os.write(self.ans[1], b'.')
                while c := os.read(self.cmd[0], 1):
                    o = lock if c == b'i' else mod.FileLock(path)
                    ok = o.acquire(blocking=False)
                    if ok:
                        o.release()
                    os.write(self.ans[1], b'y' if ok else b'n')
            finally:
                os._exit(0)
        # until it has been set up (or has died)
        os.read(self.ans[0], 1)
        os.write(self.ans[1], b'+')

    # in the harness

    def listen(self):
        osx._real_close(self.cmd[0])
        osx._real_close(self.ans[1])

    def alive(self):
        return self.ask(None) == b'+'

    def ask(self, what):
        if what is not None:
            try:
                os.write(self.cmd[1], what)
            except BrokenPipeError:
                return b''
        return os.read(self.ans[0], 1)

    def end(self):
        osx._real_close(self.cmd[1])
        osx._real_close(self.ans[0])


def survivor(sim, w, p, ling):
    """The surviving child takes part like any other process."""
    for what in (b'i', b'f'):
        got = ling.ask(what)
        sim.event('survivor', str(got))
        if got != b'y':
            w.sec.flag('stuck', f'a surviving child of the dead process got '
                       f'{got} although nobody uses the lock')
    lock = p.mod.FileLock(w.path)
    if quiet(lambda: lock.acquire(blocking=False)):
        for what in (b'i', b'f'):
            got = ling.ask(what)
            sim.event('survivor', str(got))
            if got != b'n':
                w.sec.flag('overlap', f'a surviving child of the dead process '
                           f'got {got} while another process holds the lock')
        lock.release()


def victim(v, path, ling=None):
    """Runs in a real process; kills itself at its k-th traced line."""
    left = v['k']
    me = os.getpid()
    mon = sys.monitoring

    def on_line(code, line):
        nonlocal left
        if os.getpid() != me:
            return          # a child of it
        if left <= 0:
            os.kill(os.getpid(), signal.SIGKILL)
        left -= 1

    mon.register_callback(lines.TOOL, mon.events.LINE, on_line)
    signal.alarm(20)
    mod = lb.MODS[0]

    def linger():
        if ling is not None and ling.seen == b'':
            ling.seen = b'.'
            ling.fork(lock, path, mod)

    for r in v['rounds']:
        lock = mod.FileLock(path, reentrant=r['reentrant'])
        kw = {'blocking': r['blocking'], 'timeout': r['timeout'],
              'poll_interval': r['poll']}
        if r['mode'] == 'with':
            with lock:
                linger()
                for _ in range(r['nest']):
                    with lock:
                        pass
        elif r['mode'] == 'ctx':
            with lock.acquire_ctx(**kw):
                linger()
                for _ in range(r['nest']):
                    with lock.acquire_ctx(**kw):
                        pass
        else:
            lock.acquire(**kw)
            linger()
            for _ in range(r['nest']):
                lock.acquire()
            if r['end'] == 'keep':
                return
            if r['end'] == 'drop':
                del lock
            elif r['end'] == 'force':
                lock.release(force=True)
            else:
                for _ in range(r['nest'] + 1):
                    lock.release()


# -- oracle ------------------------------------------------------------------------------

def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    viol = list(w.sec.viol)
    if outcome != 'done':
        viol.append((f'stuck-{outcome}', repr(sim.describe())[:300]))
    end = sim.time
    for a in w.att:
        if a.ok == 'died':
            continue
        e = end if a.e is None else a.e
        others = [(b.s if b.proc is a.proc else b.e,
                   end if b.rel is None else b.rel)
                  for b in w.att if b is not a and b.e is not None
                  and (b.ok is True or b.proc is a.proc)]
        # (one that died in acquire may have held it already)
        others += [(s, r) for p, _, s, r in w.w.holds
                   if p is not a.proc and (p, r) in w.deaths]
        others.sort()
        # the longest stretch of this attempt during which nobody else held
        # the lock (or, in the same process, was trying to get it)
        gap, at = 0.0, a.s
        for s, r in others:
            if s >= e:
                break
            gap = max(gap, s - at)
            at = max(at, r)
        gap = max(gap, e - at)
        if gap > a.poll + EPS and e - a.s > EPS:
            viol.append(('slow-recovery', f'{a.who} tried from {a.s:.4f} to '
                         f'{e:.4f} although nobody else used the lock for '
                         f'{gap:.4f} s (deaths: '
                         f'{[(p.name, round(t, 4)) for p, t in w.deaths]})'))
    sim.data['nontrivial'] = w.interesting > 0
    return viol
