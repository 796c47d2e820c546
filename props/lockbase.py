"""Shared by the FileLock properties."""

import errno
import json
import os
import signal

from sim import kernel, osx, target
from sim.kernel import Proc

MODS = []
NPROC = 6

REAL = ['aiuti.filelock (unmodified source, every line a switch point; one '
        'private copy of the module per simulated process)',
        'real files and the kernel\'s flock on them', 'contextlib, logging']
STUB = ['threading.Lock/RLock (simulated blocking)',
        'blocking flock = real LOCK_NB + simulated waiting',
        'clocks and sleep', 'process = module copy + threads + descriptors; '
        'a crash parks its threads for good and closes its descriptors']
ASSUMPTIONS = ['preemption at source lines of aiuti.filelock and at lock, '
               'sleep, open, close and flock calls',
               'flock semantics are those of the running Linux kernel']


def setup():
    osx.install()
    for _ in range(NPROC):
        MODS.append(target.fresh('aiuti.filelock'))


def world(sim, prog):
    w = osx.OSWorld(sim, prog['_scratch'])
    if prog['_seed'] % 4 == 0:
        # like in a daemon: the first file opened gets the descriptor 0
        sim.count('probe.stdin_closed')
        osx._real_close(0)
    w.reuse_pids = (False, True, 'bystander')[prog['_seed'] % 3]
    return w, os.path.join(prog['_scratch'], 'x.lock')


def proc(sim, i, w=None):
    """Simulated process number i, with its own copy of the module."""
    p = Proc(sim, f'P{i}')
    p.mod = MODS[i]
    if w is not None:
        p.on_crash.append(lambda: w.crash(p))
        w.pid_of(p)
    return p


def fault_fn(sim, faults):
    """faults: [[kind, index, what], ...]; index counts calls of that kind."""
    plan = {(k, i): what for k, i, what in faults}

    def fault(kind, index, th):
        what = plan.get((kind, index))
        if what is None:
            return None
        if th is not None:
            sim.data.setdefault('faulted', []).append(
                (th.tid, kind, index, what))
        if what == 'KeyboardInterrupt':
            return KeyboardInterrupt()
        return OSError(getattr(errno, what), what)
    return fault


class Section:
    """The protected section: who is inside."""

    def __init__(self, sim):
        self.sim = sim
        self.inside = {}        # tid -> depth
        self.viol = []
        self.entries = 0
        self.contended = 0

    def enter(self, who):
        sim = self.sim
        tid = sim.current.tid
        sim.event('enter', who)
        others = [t for t in self.inside if t != tid]
        if others:
            self.flag('overlap', f'{who} entered while thread(s) {others} '
                      f'are inside')
        self.inside[tid] = self.inside.get(tid, 0) + 1
        self.entries += 1

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    def leave(self, who):
        tid = self.sim.current.tid
        n = self.inside.get(tid, 0) - 1
        if n <= 0:
            self.inside.pop(tid, None)
        else:
            self.inside[tid] = n
        self.sim.event('leave', who)

    def clear(self):
        self.inside.pop(self.sim.current.tid, None)

    def died(self, tid):
        self.inside.pop(tid, None)


# -- real forked children of a simulated process ----------------------------------------

def fork_ops(rng, nobj):
    """What a forked child does with what it inherited."""
    ops = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        ops.append({'op': rng.choice(('try', 'try', 'try', 'release', 'force',
                                      'exit')),
                    'o': rng.randrange(-1, nobj),
                    'how': rng.choice(('nb', 't0', 'ctx', 'with'))})
    return {'ops': ops, 'final': rng.random() < 0.6,
            'again': rng.random() < 0.2}


def forked(sim, spec, locks, path, mod):
    """Forks a real child from the calling thread, which waits for its end:
    what it does is decided by the state of the locks alone.  Returns a list of
    what its operations gave.  locks: {number: object of this process}."""
    sim.count('fault.fork')
    sim.event('fork', len(spec['ops']))
    r, wr = os.pipe()
    saved, kernel.ACTIVE = kernel.ACTIVE, None
    pid = os.fork()
    if pid == 0:
        out = []
        try:
            signal.alarm(20)
            _forked(spec, locks, path, mod, out, spec['again'])
            os.write(wr, json.dumps(out).encode())
        except BaseException as e:       # noqa
            os.write(wr, json.dumps(out + [['failed', repr(e)]]).encode())
        finally:
            os._exit(0)
    kernel.ACTIVE = saved
    osx._real_close(wr)
    data = b''
    while chunk := os.read(r, 65536):
        data += chunk
    osx._real_close(r)
    os.waitpid(pid, 0)
    res = json.loads(data or b'[["failed", "no answer"]]')
    sim.event('forked', str(res))
    return res


def _forked(spec, locks, path, mod, out, again):
    if again:       # all of it in a child of the child
        pid = os.fork()
        if pid:
            os.waitpid(pid, 0)
            return _forked(spec, locks, path, mod, out, False)
    for o, lock in locks.items():
        if again:
            break
        out.append(['is_locked', o, lock.is_locked])
    for op in spec['ops']:
        lock = locks.get(op['o'])
        if lock is None:
            lock = mod.FileLock(path)
        if op['op'] == 'release':
            lock.release()
        elif op['op'] == 'force':
            lock.release(force=True)
        elif op['op'] == 'exit':
            lock.__exit__(None, None, None)
        else:
            timeout, lock.timeout = lock.timeout, 0
            try:
                if op['how'] == 'with':
                    with lock:
                        ok = True
                elif op['how'] == 'ctx':
                    with lock.acquire_ctx(blocking=False):
                        ok = True
                else:
                    ok = lock.acquire(**{'nb': {'blocking': False},
                                         't0': {'timeout': 0}}[op['how']])
                    if ok:
                        lock.release()
            except TimeoutError:
                ok = False
            lock.timeout = timeout
            if not again:
                out.append(['try', op['o'], ok])
    if spec['final']:       # what the end of the interpreter does
        for lock in locks.values():
            lock.__del__()
    if again:
        os._exit(0)
