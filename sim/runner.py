"""
Runs: one forked child per simulated run, eight workers, aggregation,
violation handling.
"""

import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import decider as dec
from . import kernel, lines, target
from .kernel import HarnessError, Sim
from .patch import _real as real

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_WALL = 60.0        # seconds of real time one run may take


class InvalidProgram(Exception):
    """A (shrunk) program that the property's driver does not accept."""


def load_prop(pid):
    mod = importlib.import_module(f'props.{pid.lower()}')
    mod.setup()
    gc.collect()
    gc.freeze()
    return mod


# -- one run -----------------------------------------------------------------------

def rng_for(seed, pid, index, what):
    h = hashlib.sha256(f'{seed}|{pid}|{index}|{what}'.encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def make_program(mod, seed, index, tier):
    rng = rng_for(seed, mod.ID, index, 'program')
    prog = mod.generate(rng, tier)
    prog.setdefault('_seed', rng.getrandbits(32))
    return json.loads(json.dumps(prog))     # exactly what a replay sees


def make_decider(mod, seed, index, prog):
    r = rng_for(seed, mod.ID, index, 'schedule')
    return dec.make(r.getrandbits(64), lines.lines, mod.FOCUS,
                    threads=prog.get('_threads', mod.THREADS),
                    stalls=getattr(mod, 'STALLS', ()),
                    stall_p=getattr(mod, 'STALL_P', 0.0))


WRONG_SHAPE = (TypeError, AttributeError, LookupError, ValueError)


def raised_in_target(exc):
    """The innermost frame of the code under test an unexpected exception came
    through, if any (none means that the harness itself failed)."""
    if isinstance(exc, HarnessError):
        return None
    base = os.path.realpath(os.path.join(target.REPO, 'aiuti')) + os.sep
    tb, at = exc.__traceback__, None
    while tb is not None:
        code = tb.tb_frame.f_code
        if os.path.realpath(code.co_filename).startswith(base):
            at = f'{code.co_name}, line {tb.tb_lineno}'
        tb = tb.tb_next
    return at


def eager_tasks():
    """Every event loop of this run starts its tasks eagerly (3.12)."""
    import asyncio
    init = asyncio.BaseEventLoop.__init__

    def __init__(self, *a, **kw):
        init(self, *a, **kw)
        self._task_factory = asyncio.eager_task_factory

    asyncio.BaseEventLoop.__init__ = __init__


def child_main(mod, prog, decider, wfd, want_log=False):
    """Runs in the forked child; never returns."""

    def emit(res):
        data = json.dumps(res).encode()
        data = struct.pack('>I', len(data)) + data
        view = memoryview(data)
        while view:
            n = os.write(wfd, view[:65536])
            view = view[n:]
        os._exit(0)

    def finish(sim, outcome, info):
        try:
            res = judge(sim, outcome, info)
        except BaseException:     # noqa
            res = {'outcome': 'check-error', 'error': traceback.format_exc()}
        emit(res)

    def judge(sim, outcome, info):
        exc = info.get('exc')
        res = {'outcome': outcome, 'steps': sim.steps,
               'switches': sim.switches, 'time': sim.time,
               'threads': len(sim.threads),
               'counters': sim.counters, 'digest': sim.digest(),
               'inter': sim.interleave.hexdigest(), 'strategy': decider.name}
        if isinstance(exc, InvalidProgram):
            res['outcome'] = 'invalid'
            res['error'] = str(exc)
            return res
        if exc is not None:
            res['error'] = ''.join(traceback.format_exception(exc))
            where = raised_in_target(exc)
            if where is None:
                if not isinstance(exc, WRONG_SHAPE):
                    return res
                # what the code under test handed out cannot be used
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                where = f'using its result ({tb.filename}:{tb.lineno})'
            # the code under test raised what nothing there should raise
            res['outcome'] = 'raised'
            res['nontrivial'] = True
            res['violations'] = [['raised', f'{where}: {exc!r}'[:300]]]
            res['schedule'] = decider.overrides
            res['log'] = sim.log[-400:]
            res['state'] = sim.describe()
            return res
        try:
            viols = mod.check(sim, prog, outcome)
        except Exception:        # noqa
            # the history is beyond what the oracle expects; what was
            # flagged while the run proceeded stands
            viols = getattr(sim.data.get('world'), 'viol', None)
            if not viols:
                raise
        res['violations'] = [list(v) for v in viols]
        res['nontrivial'] = bool(sim.data.get('nontrivial', True))
        if outcome == 'timecap':
            sim.count('outcome.timecap')
        if viols or want_log:
            res['schedule'] = decider.overrides
            res['log'] = sim.log[-400:]
            res['state'] = sim.describe()
        return res

    try:
        os.dup2(DEVNULL, 2) if not os.environ.get('AIUTI_SIM_STDERR') else None
        gc.disable()
        kw = dict(getattr(mod, 'SIM', {}))
        kw.update(prog.get('_sim', {}))
        sim = Sim(decider, finish=finish, **kw)
        random.seed(prog['_seed'])
        if (prog['_seed'] % 16 == 5 or os.environ.get('AIUTI_SIM_ADEBUG')) \
                and len(repr(prog)) < 20_000:
            # every event loop of this run is in debug mode, which refuses
            # calls that are not thread-safe from other threads
            os.environ['PYTHONASYNCIODEBUG'] = '1'
            sim.count('probe.asyncio_debug_mode')
        if prog['_seed'] % 16 == 6 or os.environ.get('AIUTI_SIM_EAGER'):
            eager_tasks()
            sim.count('probe.eager_tasks')
        if prog.get('_shuffle', True):
            sim.order_rng = random.Random(prog['_seed'] ^ 0x5eed)
        mod_run = mod.run
        sim.run_in_calling_thread(lambda: mod_run(sim, prog))
    except BaseException:     # noqa
        emit({'outcome': 'harness-exception',
              'error': traceback.format_exc()})
    emit({'outcome': 'harness-exception', 'error': 'run fell through'})


DEVNULL = os.open(os.devnull, os.O_RDWR)


def run_forked(mod, prog, decider, want_log=False, wall=RUN_WALL):
    """Execute one run in a forked child; returns its result dict."""
    scratch = None
    if getattr(mod, 'SCRATCH', False):
        scratch = make_scratch()
        prog = dict(prog, _scratch=scratch)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child_main(mod, prog, decider, w, want_log)
    os.close(w)
    buf = bytearray()
    deadline = real['monotonic']() + wall
    res = None
    while True:
        left = deadline - real['monotonic']()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            res = {'outcome': 'wall-timeout',
                   'error': f'run exceeded {wall} s of real time'}
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if scratch:
        clear_scratch(scratch)
    if res is not None:
        return res
    if len(buf) < 4 or len(buf) - 4 != struct.unpack('>I', buf[:4])[0]:
        return {'outcome': 'child-died',
                'error': f'child ended with status {status} and '
                         f'{len(buf)} bytes'}
    return json.loads(bytes(buf[4:]))


SCRATCH_BASE = None


def open_scratch_base():
    """One private directory per check process, removed at its end."""
    global SCRATCH_BASE
    import tempfile
    if SCRATCH_BASE is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        SCRATCH_BASE = (os.getpid(),
                        tempfile.mkdtemp(prefix='aiuti-sim-', dir=base))


def close_scratch_base():
    global SCRATCH_BASE
    import shutil
    if SCRATCH_BASE is not None and SCRATCH_BASE[0] == os.getpid():
        shutil.rmtree(SCRATCH_BASE[1], ignore_errors=True)
        SCRATCH_BASE = None


def make_scratch():
    open_scratch_base()
    d = os.path.join(SCRATCH_BASE[1], f'w{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    return d


def clear_scratch(d):
    for name in os.listdir(d):
        try:
            os.unlink(os.path.join(d, name))
        except OSError:
            pass


def die_with_parent():
    """Ask the kernel to end this process when its parent ends."""
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


# -- known findings ----------------------------------------------------------------

def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            items = json.load(f)['findings']
    except FileNotFoundError:
        return []
    return [x for x in items if x['property'] == pid
            and x.get('status') != 'fixed']


def split_known(pid, viols, known):
    new, old = [], []
    for v in viols:
        for k in known:
            if v[0] == k['kind'] and k.get('match', '') in v[1]:
                old.append((k, v))
                break
        else:
            new.append(v)
    return new, old


# -- a batch -------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.d = {'runs': 0, 'outcomes': {}, 'strategies': {},
                  'counters': {}, 'runs_with': {}, 'steps': 0, 'switches': 0,
                  'sim_time': 0.0, 'nontrivial': 0, 'max_steps': 0}
        self.inter = set()
        self.distinct = set()
        self.traces = set()

    def add(self, res):
        d = self.d
        d['runs'] += 1
        for k in ('outcome', 'strategy'):
            v = res.get(k, '?')
            m = d[k + 's' if k == 'outcome' else 'strategies']
            m[v] = m.get(v, 0) + 1
        for k, n in res.get('counters', {}).items():
            d['counters'][k] = d['counters'].get(k, 0) + n
            d['runs_with'][k] = d['runs_with'].get(k, 0) + 1
        d['steps'] += res.get('steps', 0)
        d['max_steps'] = max(d['max_steps'], res.get('steps', 0))
        d['switches'] += res.get('switches', 0)
        d['sim_time'] += res.get('time', 0.0)
        it = res.get('inter', '')[:12]
        self.inter.add(it)
        dg = res.get('digest', '')[:12]
        self.traces.add(dg)
        if res.get('nontrivial'):
            d['nontrivial'] += 1
            self.distinct.add(it + dg)

    def dump(self):
        return {'d': self.d, 'inter': list(self.inter),
                'traces': list(self.traces), 'distinct': list(self.distinct)}

    def merge(self, o):
        d, e = self.d, o['d']
        for k in ('runs', 'steps', 'switches', 'sim_time', 'nontrivial'):
            d[k] += e[k]
        d['max_steps'] = max(d['max_steps'], e['max_steps'])
        for k in ('outcomes', 'strategies', 'counters', 'runs_with'):
            for x, n in e[k].items():
                d[k][x] = d[k].get(x, 0) + n
        self.inter.update(o['inter'])
        self.traces.update(o['traces'])
        self.distinct.update(o['distinct'])


BAD = ('harness-exception', 'check-error', 'child-died', 'wall-timeout',
       'invalid')


def worker(mod, seed, tier, indices, out, deadline, known):
    """Runs in a worker process."""
    stats = Stats()
    samples, digests = [], {}
    last = real['monotonic']()

    def send(kind, obj):
        data = json.dumps([kind, obj]).encode()
        data = struct.pack('>I', len(data)) + data
        view = memoryview(data)
        while view:
            n = os.write(out, view[:65536])
            view = view[n:]

    capped = False
    for i in indices:
        if real['monotonic']() > deadline:
            capped = True
            break
        prog = make_program(mod, seed, i, tier)
        res = run_forked(mod, prog, make_decider(mod, seed, i, prog))
        if res['outcome'] in BAD:
            send('bad', {'index': i, 'res': res, 'program': prog})
        stats.add(res)
        if res['outcome'] != 'done' and os.environ.get('AIUTI_SIM_ODD'):
            print('odd outcome', i, res['outcome'], flush=True)
        viols = res.get('violations') or []
        if viols:
            new, old = split_known(mod.ID, viols, known)
            for k, v in old:
                send('known', {'index': i, 'id': k['id'], 'viol': v})
            if new:
                send('violation', {'index': i, 'program': prog, 'res': res,
                                   'viols': new})
        if len(samples) < 2 and res.get('nontrivial'):
            samples.append({'index': i, 'program': prog,
                            'outcome': res['outcome'],
                            'steps': res.get('steps'),
                            'virtual_s': res.get('time')})
        digests[i] = (res.get('digest', res['outcome'])[:16]
                      + res.get('inter', '')[:16])
    send('end', {'stats': stats.dump(), 'samples': samples,
                 'capped': capped, 'digests': digests
                 if os.environ.get('AIUTI_SIM_DIGESTS') else {}})
    os._exit(0)


def batch(mod, seed, tier, total, workers, wall, known=(), first_only=True,
          start=0):
    """Run `total` runs; returns (stats, samples, violations, bad, ...)."""
    t0 = real['monotonic']()
    deadline = t0 + wall
    pipes, pids = {}, {}
    if getattr(mod, 'SCRATCH', False):
        open_scratch_base()
    sys.stdout.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                die_with_parent()
                os.close(r)
                for fd in pipes:
                    os.close(fd)
                worker(mod, seed, tier,
                       range(start + w, start + total, workers),
                       wr, deadline, known)
            except BaseException:     # noqa
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(wr)
        pipes[r] = bytearray()
        pids[r] = pid
    stats = Stats()
    samples, viols, bad, knowns, digests = [], [], [], {}, {}
    ended = 0
    stop_at = None
    capped = False
    open_pipes = set(pipes)
    while open_pipes:
        now = real['monotonic']()
        if stop_at is not None and now > stop_at:
            break
        if now > deadline + RUN_WALL + 30:
            bad.append({'index': -1, 'res': {
                'outcome': 'wall-timeout', 'error': 'a worker did not end'}})
            break
        ready, _, _ = select.select(list(open_pipes), [], [], 0.5)
        for r in ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                open_pipes.discard(r)
                continue
            buf = pipes[r]
            buf += chunk
            while len(buf) >= 4:
                n = struct.unpack('>I', buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                kind, obj = json.loads(bytes(buf[4:4 + n]))
                del buf[:4 + n]
                if kind == 'end':
                    ended += 1
                    stats.merge(obj['stats'])
                    samples.extend(obj['samples'])
                    capped = capped or obj['capped']
                    digests.update({int(k): v for k, v
                                    in obj['digests'].items()})
                elif kind == 'bad':
                    bad.append(obj)
                    if len(bad) > 400 and stop_at is None:
                        stop_at = real['monotonic']() + 1
                elif kind == 'known':
                    knowns.setdefault(obj['id'], []).append(obj)
                elif kind == 'violation':
                    viols.append(obj)
                    if first_only and stop_at is None:
                        # let runs with smaller indices come in
                        stop_at = real['monotonic']() + 2
    for r, pid in pids.items():
        if stop_at is not None or r in open_pipes:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        os.close(r)
    if stop_at is None and ended < workers and not bad:
        bad.append({'index': -1, 'res': {
            'outcome': 'child-died', 'error': 'a worker died'}})
    viols.sort(key=lambda v: v['index'])
    return {'stats': stats, 'samples': samples, 'violations': viols,
            'bad': bad, 'known': knowns, 'capped': capped,
            'wall': real['monotonic']() - t0, 'digests': digests,
            'interrupted': stop_at is not None}
