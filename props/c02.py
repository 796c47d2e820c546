"""C02: FileLock mutual exclusion."""

from . import lockbase as lb
from .common import UNDER_TEST, pick, quiet
from .lockbase import REAL, STUB, ASSUMPTIONS, setup      # noqa

ID = 'C02'
THREADS = True
SCRATCH = True
BUDGET = {'quick': 14000, 'thorough': 450000}
SIM = {'max_steps': 60_000, 'max_time': 3000.0}
FOCUS = ('BaseFileLock', 'UnixFileLock')
STALLS = (0.004, 0.06, 1.0)
STALL_P = 0.1
RULE = ('seeded programs: 1..3 simulated processes x 1..2 FileLock objects x '
        '2..4 threads x 1..3 rounds of acquire()/acquire_ctx()/with, '
        'blocking, non-blocking and timed, nested for reentrant objects, '
        'in-section probes through a fresh object, rare OSErrors, real forked '
        'children that inherit the (held) objects; one seeded schedule each.  Non-trivial: at least two threads entered and some '
        'acquire had to wait or fail')

TIMEOUTS = (None, None, -1, 0, 0.01, 0.06, 0.3)


def generate(rng, tier):
    nproc = pick(rng, (5, 1), (3, 2), (2, 3))
    nobj = max(nproc, pick(rng, (4, 1), (4, 2), (1, 3)))
    objs = []
    for i in range(nobj):
        objs.append({'proc': i % nproc, 'reentrant': rng.random() < 0.45,
                     'timeout': rng.choice((-1, -1, -1, 0, 0.02, 0.1))})
    threads = []
    nthr = max(2, nobj if rng.random() < 0.7 else 2,
               pick(rng, (4, 2), (4, 3), (2, 4)))
    for t in range(nthr):
        first = t if t < nobj else rng.randrange(nobj)
        mine = [i for i, o in enumerate(objs)
                if o['proc'] == objs[first]['proc']]
        rounds = []
        for _ in range(pick(rng, (3, 1), (3, 2), (2, 3))):
            o = first if rng.random() < 0.8 else rng.choice(mine)
            r = {'obj': o,
                 'mode': pick(rng, (4, 'acquire'), (3, 'ctx'), (3, 'with'),
                              (1, 'fresh')),
                 'blocking': rng.random() < 0.75,
                 'timeout': rng.choice(TIMEOUTS),
                 'poll': rng.choice((0.05, 0.01, 0.02)),
                 'hold': rng.choice((None, None, 0, 0.001, 0.01, 0.07)),
                 'nest': pick(rng, (4, 0), (2, 1), (1, 2))
                 if objs[o]['reentrant'] else 0,
                 'nest_mode': rng.choice(('acquire', 'with', 'ctx')),
                 'force': rng.random() < 0.1,
                 'probe': rng.random() < 0.3,
                 'gap': rng.choice((None, None, 0, 0.001, 0.05))}
            if rng.random() < 0.04:
                r['fork'] = lb.fork_ops(rng, nobj)
                r['fork']['where'] = pick(rng, (3, 'inside'), (1, 'before'))
            rounds.append(r)
        threads.append({'proc': objs[first]['proc'],
                        'start': rng.choice((0, 0, 0, 0.001, 0.02)),
                        'rounds': rounds})
    faults = []
    if rng.random() < 0.2:
        for _ in range(rng.choice((1, 1, 2))):
            faults.append([rng.choice(('open', 'lock', 'unlock', 'close')),
                           rng.randrange(6),
                           rng.choice(('EIO', 'ENOLCK', 'EINTR', 'EMFILE',
                                       'EACCES', 'ENOSPC'))])
    return {'objects': objs, 'threads': threads, 'faults': faults}


def run(sim, prog):
    w, path = lb.world(sim, prog)
    sec = lb.Section(sim)
    sim.data['sec'] = sec
    if prog['faults']:
        w.fault = lb.fault_fn(sim, prog['faults'])
    procs = {}
    objs = []
    for o in prog['objects']:
        if o['proc'] not in procs:
            procs[o['proc']] = lb.proc(sim, o['proc'], w)
        mod = procs[o['proc']].mod
        objs.append(mod.FileLock(path, timeout=o['timeout'],
                                 reentrant=o['reentrant']))
    sim.data['keep'] = objs
    proc_of = {p.mod: i for i, p in procs.items()}
    waited = sim.data['waited'] = []

    def fork(who, r, proc, where):
        spec = r.get('fork')
        if not spec or spec['where'] != where:
            return
        mod = procs[proc].mod
        mine = {i: l for i, l in enumerate(objs)
                if prog['objects'][i]['proc'] == proc}
        for what, o, *res in lb.forked(sim, spec, mine, path, mod):
            if what == 'failed':
                sec.flag('fork-failed', f'in a child forked by {who}: {o}')
            elif what == 'try' and res[0] and sec.inside:
                sec.flag('overlap', f'a child forked by {who} acquired '
                         f'through object {o} while thread(s) '
                         f'{list(sec.inside)} are inside')
        if where == 'inside':
            fresh = mod.FileLock(path)
            if quiet(lambda: fresh.acquire(blocking=False)):
                sec.flag('probe', f'the lock is free after a child forked by '
                         f'{who} ended although {who} is inside')
                quiet(fresh.release)

    def inside(who, r, lock, mod):
        sec.enter(who)
        if r['hold'] is not None:
            sim.sleep(r['hold'])
        if r['probe']:
            fresh = mod.FileLock(path)
            if quiet(lambda: fresh.acquire(blocking=False)):
                sec.flag('probe', f'a fresh object acquired the lock while '
                         f'{who} holds it')
                quiet(fresh.release)
        fork(who, r, proc_of[mod], 'inside')
        if lock.is_locked is not True:
            sec.flag('unlocked-inside', f'{who} is inside but is_locked is '
                     f'{lock.is_locked!r}')

    def locked(lock, mode, who, r, body, outer):
        """One acquire/section/release through the given interface."""
        kw = {'blocking': r['blocking'], 'timeout': r['timeout'],
              'poll_interval': r['poll']}
        if mode == 'with':
            t0 = sim.now
            try:
                with lock:
                    waited.append(sim.now > t0)
                    body()
                    sec.leave(who)
            except UNDER_TEST:
                waited.append(True)
        elif mode == 'ctx':
            try:
                with lock.acquire_ctx(**kw):
                    body()
                    sec.leave(who)
            except UNDER_TEST:
                waited.append(True)
        else:
            try:
                ok = lock.acquire(**kw)
            except UNDER_TEST:
                ok = False
            if not ok:
                waited.append(True)
                return
            body()
            sec.leave(who)
            if r['force'] and outer:
                quiet(lambda: lock.release(force=True))
            else:
                quiet(lock.release)

    def thread(ti, spec, proc):
        sim.sleep(spec['start'])
        mod = proc.mod
        for ri, r in enumerate(spec['rounds']):
            o = prog['objects'][r['obj']]
            if o['proc'] != spec['proc']:
                continue
            who = f'T{ti}.{ri}'
            lock = objs[r['obj']]
            mode = r['mode']
            if mode == 'fresh':
                lock = mod.FileLock(path, reentrant=o['reentrant'])
                mode = 'acquire'
            depth = 0
            fork(who, r, spec['proc'], 'before')

            def body():
                nonlocal depth
                inside(who, r, lock, mod)
                if depth < r['nest'] and o['reentrant']:
                    depth += 1
                    locked(lock, r['nest_mode'], f'{who}+{depth}', r, body,
                           False)

            locked(lock, mode, who, r, body, True)
            sec.clear()
            del lock
            if r['gap'] is not None:
                sim.sleep(r['gap'])

    ths = [sim.spawn(thread, name=f'T{i}', proc=procs.setdefault(
        t['proc'], lb.proc(sim, t['proc'], w)), args=(i, t, procs[t['proc']]))
        for i, t in enumerate(prog['threads'])]
    for t in ths:
        sim.join(t)


def check(sim, prog, outcome):
    sec = sim.data['sec']
    waited = sim.data.get('waited') or []
    sim.data['nontrivial'] = sec.entries >= 2 and (
        any(waited) or sim.counters.get('probe.flock_blocked', 0) > 0)
    return list(sec.viol)
