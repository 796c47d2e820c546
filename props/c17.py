"""C17: cross-loop awaiting is transparent, on the target loop, and completes."""

import asyncio
import concurrent.futures

from sim import aio as simaio, lines, target
from sim.kernel import get_ident
from sim.runner import InvalidProgram

from .common import UNDER_TEST, alive, make_exc, pick
from .common import EXCS as _EXCS

ID = 'C17'
THREADS = True
BUDGET = {'quick': 7000, 'thorough': 250000}
SIM = {'max_steps': 400_000, 'max_time': 50_000.0}
FOCUS = ('ensure_aw', 'loop_in_thread', '_get_loop_lock', 'run_aw_threadsafe',
         '_loop_thread', '_stopper')
RULE = ('seeded programs of 1..4 caller threads, each with its own loop, '
        'awaiting coroutines, futures, tasks and custom awaitables on one '
        'target loop that is idle, run by loop_in_thread (also stopped and '
        'restarted under the callers, by one or two managers), run by a plain '
        'thread that stops, the caller\'s own, or closed.  Judged: results and '
        'exceptions by identity, the loop and thread seen inside, exclusive '
        'running, state of the loop when loop_in_thread and its stop function '
        'return, completion.  Non-trivial: two calls overlapped, or the '
        'target\'s state changed during a call')
REAL = ['aiuti.asyncio.ensure_aw, run_aw_threadsafe, loop_in_thread, '
        '_get_loop_lock (unmodified source)',
        'asyncio loops, tasks, futures; concurrent.futures thread pool']
STUB = ['selectors, clock, threads and locks', 'awaitables and callers '
        '(harness)']
ASSUMPTIONS = ['preemption at source lines of aiuti.asyncio and of '
               'BaseEventLoop.run_forever/run_until_complete/stop, and at lock '
               'and wake-up operations',
               'a plain thread that runs the target itself starts before the '
               'callers do',
               'at most 40 loops are kept running at once']

aio_mod = None
_EXCS.setdefault('CfCancelled', concurrent.futures.CancelledError)
_EXCS.setdefault('CfInvalid', concurrent.futures.InvalidStateError)
RAISES = ('ValueError', 'RuntimeError', 'HarnessExc', 'TimeoutError',
          'CancelledError', 'HarnessBase', 'KeyError', 'InvalidStateError',
          'CfCancelled', 'CfInvalid', 'LookupError', 'FalsyExc')
EPS = 1e-6


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')
    base = asyncio.base_events.BaseEventLoop
    for fn in (base.run_forever, base.run_until_complete, base.stop):
        lines.instrument_function(fn)


# -- programs ----------------------------------------------------------------------

def _aw(rng, evs):
    kind = pick(rng, (5, 'coro'), (2, 'future'), (2, 'task'), (1, 'obj'))
    a = {'kind': kind, 'dur': 130.0 if rng.random() < 0.01 else
         rng.choice((None, None, 0.0, 0.3, 1.0, 2.7)),
         'out': pick(rng, (3, 'ret'), (1, rng.choice(RAISES))),
         'wait': None, 'set': None,
         'res': pick(rng, (6, 'token'), (1, 'none'), (1, 'false'), (1, 'exc'),
                     (0.7, 'aw'), (0.5, 'cancel')),
         'block': rng.choice((0.2, 1.6, 8.0)) if rng.random() < 0.08 else None}
    if kind == 'future' and a['out'] in ('HarnessBase',):
        a['out'] = 'ret'
    if kind in ('coro', 'obj') and evs and rng.random() < 0.5:
        a[rng.choice(('wait', 'set'))] = rng.choice(evs)
    if kind in ('coro', 'obj') and rng.random() < 0.1:
        # it awaits something of another loop itself
        a['via'] = rng.choice(('caller', 'third'))
    return a


def generate(rng, tier):
    kind = pick(rng, (5, 'idle'), (5, 'thread'), (2, 'raw'), (0.7, 'own'),
                (0.7, 'closed'), (0.5, 'many'))
    n = pick(rng, (2, 1), (5, 2), (4, 3), (1, 4), (0.06, 36))
    evs = ['e0', 'e1'] if rng.random() < 0.4 else []
    gap = rng.choice(((0.0,), (0.0, 0.0, 0.3), (0.0, 0.3, 1.0, 1.7)))
    callers = []
    for _ in range(n):
        ops = []
        for _ in range(pick(rng, (6, 1), (3, 2), (1, 3))):
            ops.append({'gap': rng.choice(gap), 'fn': 'ensure_aw',
                        'par': rng.random() < 0.3,
                        'share': rng.random() < 0.1,
                        'aw': _aw(rng, evs)})
        callers.append({'start': rng.choice(gap), 'ops': ops})
    sets = {o['aw']['set'] for c in callers for o in c['ops']}
    for c in callers:
        for o in c['ops']:
            if o['aw']['wait'] not in sets and rng.random() < 0.97:
                o['aw']['wait'] = None
    prog = {'kind': kind, 'callers': callers, 'managers': [], 'raw': None,
            'close': False}
    if kind in ('thread', 'idle') and (kind == 'thread'
                                       or rng.random() < 0.15):
        for _ in range(pick(rng, (5, 1), (2, 2))):
            prog['managers'].append(
                {'start': rng.choice(gap), 'ops': [
                    {'gap': rng.choice(gap),
                     'hold': rng.choice((0.0, 0.0, 0.3, 1.0, 5.0, 100.0)),
                     'twice': rng.random() < 0.1,
                     'busy': rng.choice((0.2, 1.6, 12.0))
                     if rng.random() < 0.25 else None,
                     'busy_first': rng.random() < 0.3}
                    for _ in range(pick(rng, (3, 1), (2, 2), (1, 3)))]})
    if kind == 'thread' and rng.random() < 0.35:
        # held for as long as anyone is calling: run_aw_threadsafe is legal
        prog['managers'] = [{'start': 0.0, 'ops': [
            {'gap': 0.0, 'hold': 'calls', 'twice': False, 'busy': None,
             'busy_first': False}]}]
    if kind in ('own', 'closed') or prog['managers'] and \
            prog['managers'][0]['ops'][0]['hold'] == 'calls':
        for c in callers:
            for o in c['ops']:
                if rng.random() < 0.4:
                    o['fn'] = 'run_aw_threadsafe'
    if kind == 'raw':
        prog['raw'] = {'hold': rng.choice((0.0, 0.0, 0.3, 1.0, 1.7, 30.0))}
    if kind in ('idle', 'thread') and rng.random() < 0.08:
        prog['close'] = True
    if (kind == 'raw' or kind == 'idle' and not prog['managers']) and \
            rng.random() < 0.3:
        # somebody stops whatever runs the target
        prog['stops'] = [rng.choice((0.0, 0.1, 0.3, 0.8, 1.0, 2.0))
                         for _ in range(rng.choice((1, 2, 4)))]
    if kind == 'many':
        prog['many'] = rng.choice((3, 16, 31, 32, 33, 40))
    return prog


# -- the world ----------------------------------------------------------------------

class Token:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'result {self.n}'


RESULTS = {'none': None, 'false': False,
           'exc': ValueError('a result, not an error'),
           'cancel': asyncio.CancelledError('a result, not a cancellation')}


class Lazy:
    """A result that could itself be awaited."""

    def __await__(self):
        raise AssertionError('a result was awaited')
        yield


def make_result(a, n):
    kind = a.get('res', 'token')
    return Lazy() if kind == 'aw' else Token(n) if kind == 'token' \
        else RESULTS[kind]


class Obj:
    """An awaitable that is neither a coroutine nor a future."""

    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Rec:
    def __init__(self, n, who, op):
        self.n = n
        self.who = who
        self.op = op
        self.at = self.seq = None
        self.out = None
        self.end = self.end_at = None
        self.expect = None
        self.aw_done_at = None
        self.evals = 0
        self.closed_before = False

    def __repr__(self):
        return f'call {self.n} by {self.who} ({self.op["fn"]} ' \
               f'{self.op["aw"]["kind"]}/{self.op["aw"]["out"]})'


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.viol = []
        self.recs = []
        self.calling = 0
        self.changes = 0
        self.blocked = 0.0
        self.closing = self.closed = None
        self.awaits = {}
        self.over = False

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    # -- awaitables -------------------------------------------------------------------

    def make_awaitables(self):
        """Futures and tasks of the target are made before anything runs."""
        T = self.T
        last = None
        for ci, c in enumerate(self.prog['callers']):
            for oi, op in enumerate(c['ops']):
                r = Rec(len(self.recs), f'C{ci}', op)
                self.recs.append(r)
                a = op['aw']
                if op['share'] and last is not None:
                    lr, law = last
                    r.expect = lr.expect
                    r.shared = lr
                    self.awaits[ci, oi] = (r, law)
                    continue
                r.shared = None
                r.expect = ('val', make_result(a, r.n)) if a['out'] == 'ret' else \
                    ('exc', make_exc(a['out'], r.n))
                if a['kind'] == 'future':
                    f = T.create_future()

                    def done(f=f, r=r):
                        r.aw_done_at = self.sim.time
                        k, v = r.expect
                        if f.done():
                            return
                        if k == 'val':
                            f.set_result(v)
                        elif isinstance(v, asyncio.CancelledError):
                            f.cancel(v.args[0])
                        else:
                            f.set_exception(v)
                    if a['dur'] is None:
                        if T.is_closed():
                            f.set_result(r.expect[1]) \
                                if a['out'] == 'ret' else f.cancel()
                        else:
                            done()
                    elif not T.is_closed():
                        T.call_later(a['dur'], done)
                    aw = f
                elif a['kind'] == 'task' and not T.is_closed():
                    aw = T.create_task(self.body(r))
                else:
                    aw = None
                if aw is not None:
                    last = r, aw
                self.awaits[ci, oi] = (r, aw)

    def events(self):
        self.ev = {}
        for e in ('e0', 'e1'):
            self.ev[e] = asyncio.Event()

    async def body(self, r):
        """What every awaitable made of code does on the target."""
        sim, a = self.sim, r.op['aw']
        r.evals += 1
        loop = asyncio.get_running_loop()
        sim.event('eval', r.n)
        if loop is not self.T:
            self.flag('wrong-loop', f'{r} evaluated on {self.name(loop)}')
        if self.T._thread_id != get_ident():
            self.flag('wrong-thread', f'{r} evaluated outside the thread that '
                      'runs the target')
        if a['set']:
            self.ev[a['set']].set()
        if a['block'] is not None:
            self.block(a['block'])
        if a['dur'] is not None:
            await asyncio.sleep(a['dur'])
        if a['wait']:
            await self.ev[a['wait']].wait()
        if a.get('via') and self.prog['kind'] not in ('own', 'closed'):
            await self.via(r, r.loop if a['via'] == 'caller' else self.third)
        if asyncio.get_running_loop() is not self.T:
            self.flag('wrong-loop', f'{r} moved to another loop')
        r.aw_done_at = sim.time
        sim.event('eval.done', r.n)
        k, v = r.expect
        if k == 'exc':
            raise v
        return v

    async def via(self, r, target):
        """The awaitable crosses loops, too."""
        want = Token(r.n)

        async def inner():
            if asyncio.get_running_loop() is not target:
                self.flag('wrong-loop', f'evaluated by {r} on '
                          f'{self.name(asyncio.get_running_loop())}')
            await asyncio.sleep(0.1)
            return want
        try:
            got = await aio_mod.ensure_aw(inner(), target)
        except RuntimeError:
            if self.closing is None:
                raise
            return
        if got is not want:
            self.flag('wrong-outcome', f'{r} got {got!r} from another loop')

    def name(self, loop):
        return 'T' if loop is self.T else f'loop#{loop.serial}'

    # -- callers ----------------------------------------------------------------------

    async def call(self, ci, oi):
        sim = self.sim
        r, aw = self.awaits[ci, oi]
        op = r.op
        if aw is None:
            co = self.body(r)
            aw = Obj(co) if op['aw']['kind'] == 'obj' else co
        r.at = sim.time
        r.loop = asyncio.get_running_loop()
        r.closed_before = self.closed is not None
        r.seq = sim.event('call', r.n, op['fn'], op['aw']['kind'])
        here, me = asyncio.get_running_loop(), get_ident()
        try:
            v = await getattr(aio_mod, op['fn'])(aw, self.T)
            r.out = ('val', v)
        except BaseException as e:
            r.out = ('exc', e)
        if asyncio.get_running_loop() is not here or get_ident() != me:
            self.flag('caller-moved', f'{r} resumed elsewhere')
        r.end = sim.event('return', r.n, r.out[0],
                          type(r.out[1]).__name__)
        r.end_at = sim.time

    def caller(self, ci, spec, loop=None):
        sim = self.sim
        own = loop is None

        async def main():
            pars = []
            for oi, op in enumerate(spec['ops']):
                if op['gap']:
                    await asyncio.sleep(op['gap'])
                t = asyncio.ensure_future(self.call(ci, oi))
                if op['par']:
                    pars.append(t)
                else:
                    await t
            for t in pars:
                await t

        sim.sleep(spec['start'])
        if own:
            loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
        self.calling -= 1
        sim.wake_all('calls') if hasattr(sim, 'wake_all') else None
        if own:
            loop.close()

    def block(self, d):
        """Keeps the target loop busy."""
        self.sim.count('fault.loop_blocked')
        self.blocked += d
        self.sim.sleep(d)

    # -- managers ----------------------------------------------------------------------

    def manager(self, mi, spec):
        sim, T = self.sim, self.T
        sim.sleep(spec['start'])
        for op in spec['ops']:
            sim.sleep(op['gap'])
            sim.event('loop_in_thread', mi)
            if op['busy'] and op['busy_first'] and not T.is_closed():
                T.call_soon_threadsafe(self.block, op['busy'])
            try:
                stop = aio_mod.loop_in_thread(T)
            except UNDER_TEST as e:
                if self.closing is None:
                    self.flag('loop-in-thread-failed', repr(e))
                return
            self.changes += 1
            epoch = T.run_epoch
            running = T.is_running()
            sim.event('started', mi, running, epoch)
            if not running:
                self.flag('not-running', f'loop_in_thread of manager {mi} '
                          'returned but the loop is not running')
            if op['hold'] == 'calls':
                while self.calling > 0:
                    sim.sleep(0.5)
            else:
                sim.sleep(op['hold'])
            if (not T.is_running() or T.run_epoch != epoch):
                self.flag('stopped-early', f'the loop started by manager {mi} '
                          'was stopped by something else')
            if op['busy'] and not op['busy_first'] and not T.is_closed():
                T.call_soon_threadsafe(self.block, op['busy'])
            sim.event('stop', mi)
            try:
                stop()
            except UNDER_TEST as e:
                self.flag('stop-failed', repr(e))
                return
            self.changes += 1
            if T.is_running() and T.run_epoch == epoch:
                self.flag('not-stopped', f'stop function of manager {mi} '
                          'returned but the loop still runs')
            sim.event('stopped', mi, T.run_epoch)
            if op['twice']:
                before = T.run_epoch
                try:
                    stop()
                except UNDER_TEST:
                    pass

    def raw(self, hold):
        sim, T = self.sim, self.T
        asyncio.set_event_loop(T)
        T.call_later(hold, T.stop)
        self.raw_on = True
        sim.event('raw.run')
        T.run_forever()
        sim.event('raw.stopped')
        self.changes += 1

    def stops(self):
        sim, T = self.sim, self.T
        for gap in self.prog['stops']:
            sim.sleep(gap)
            if T.is_closed():
                return
            sim.event('somebody stops the target')
            sim.count('fault.target_stopped')
            try:
                T.call_soon_threadsafe(T.stop)
            except RuntimeError:
                return

    def run(self):
        sim, prog = self.sim, self.prog
        kind = prog['kind']
        if not prog['callers'] and not prog['managers']:
            raise InvalidProgram('nothing to do')
        self.T = T = asyncio.new_event_loop()
        if kind == 'closed':
            T.close()
            self.closed = 0
        self.third = asyncio.new_event_loop()
        self.events()
        self.make_awaitables()
        self.calling = len(prog['callers'])
        ths, self.mgr = [], []
        extra = []
        if kind == 'many':
            # other loops are kept busy the same way
            for _ in range(prog['many']):
                lp = asyncio.new_event_loop()
                try:
                    extra.append(aio_mod.loop_in_thread(lp))
                except UNDER_TEST as e:
                    self.flag('loop-in-thread-failed', repr(e))
                if not lp.is_running():
                    self.flag('not-running', 'loop_in_thread returned but '
                              'the loop is not running')
        if kind == 'raw':
            self.raw_on = False
            rt = sim.spawn(self.raw, name='raw', args=(prog['raw']['hold'],))
            while not T.is_running() and alive(rt):
                sim.yield_()
        for mi, spec in enumerate(prog['managers']):
            self.mgr.append(sim.spawn(self.manager, name=f'M{mi}',
                                      args=(mi, spec)))
        if prog['managers'] and prog['managers'][0]['ops'] and \
                prog['managers'][0]['ops'][0]['hold'] == 'calls':
            while not T.is_running() and alive(self.mgr[0]):
                sim.sleep(0.05)
        if kind == 'own':
            spec = prog['callers'][0]
            self.calling = 1
            th = sim.spawn(self.caller, name='C0', args=(0, spec, T))
            ths.append(th)
            self.recs = [r for r in self.recs if r.who == 'C0']
        else:
            for ci, spec in enumerate(prog['callers']):
                ths.append(sim.spawn(self.caller, name=f'C{ci}',
                                     args=(ci, spec)))
        self.ths = ths
        if prog.get('stops'):
            self.changes += 1
            ths.append(sim.spawn(self.stops, name='stopper'))
        if prog['close']:
            sim.sleep(2.3)
            self.closing = sim.event('close')
            while True:
                try:
                    T.close()
                    break
                except RuntimeError:
                    sim.sleep(0.7)
                if not any(alive(t) for t in self.mgr) and \
                        sim.time > 1000:
                    break
            self.closed = sim.event('closed')
        end = sim.time + 60 + sum(
            o['gap'] + (o['hold'] if o['hold'] != 'calls' else 0) + 5
            + (o['busy'] or 0) for m in prog['managers'] for o in m['ops']) \
            + sum((o['aw']['block'] or 0) + (o['aw']['dur'] or 0)
                  for c in prog['callers'] for o in c['ops'])
        for t in ths + self.mgr:
            sim.join(t, max(0.01, end - sim.time))
        sim.event('over')
        for stop in extra:
            stop()
        self.over = True


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


# -- the oracle ------------------------------------------------------------------------

def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None or not hasattr(w, 'T'):
        return []
    viol = list(w.viol)
    T = w.T
    recs = w.recs
    sim.data['nontrivial'] = w.changes > 0 or any(
        a.seq and b.seq and a is not b and a.seq < b.seq
        and (a.end is None or a.end > b.seq) for a in recs for b in recs)
    if simaio.double_runs(sim):
        viol.append(('run-twice', 'two threads ran one loop at once'))
    waits = satisfied(w)
    for r in recs:
        if r.seq is None:
            continue
        closing = w.closing is not None
        if r.end is None:
            if r.n not in waits:
                continue
            if closing and r.op['fn'] != 'ensure_aw':
                continue
            viol.append(('hang', f'{r} never completed (outcome of the run: '
                         f'{outcome})'))
            continue
        kind, obj = r.out
        if prog['kind'] == 'closed' or r.closed_before:
            if kind != 'exc' or not isinstance(obj, RuntimeError):
                viol.append(('closed-target', f'{r} got {kind} {obj!r} from a '
                             'closed loop'))
            continue
        ek, ev = r.expect
        ok = kind == ek and (obj is ev or (
            kind == 'exc' and isinstance(ev, asyncio.CancelledError)
            and isinstance(obj, asyncio.CancelledError)))
        if not ok and closing and kind == 'exc':
            # closing a loop which is being started breaks inside asyncio
            w.sim.count('probe.closed_meanwhile')
            continue
        if not ok:
            viol.append(('wrong-outcome', f'{r} expected {ek} {ev!r}, got '
                         f'{kind} {obj!r}'))
            continue
        src = r.shared or r
        if r.shared is None and r.op['aw']['kind'] in ('coro', 'obj') \
                and r.evals != 1:
            viol.append(('evaluated', f'{r} evaluated {r.evals} times'))
        if src.aw_done_at is not None and not closing:
            late = r.end_at - max(src.aw_done_at, r.at)
            if late > 5 + w.blocked:
                viol.append(('late', f'{r} completed {late} s after its '
                             'awaitable'))
    if outcome != 'done' and not viol and w.closing is None:
        stuck = [t.name for t in getattr(w, 'mgr', ()) if alive(t)]
        if stuck and not any(r.seq and r.end is None for r in recs):
            viol.append(('manager-stuck', f'{stuck}: loop_in_thread or its '
                         'stop function never returned'))
    elif not viol and w.closing is None:
        for t in w.mgr:
            if alive(t) and not any(r.seq and r.end is None for r in recs):
                viol.append(('manager-stuck', f'{t.name}: loop_in_thread or '
                             'its stop function never returned'))
    if not viol and not w.over and w.closing is None:
        viol.append(('helper-stuck', f'the run ended as {outcome} inside '
                     'loop_in_thread or a stop function'))
    return viol


def satisfied(w):
    """Calls whose awaitable finishes if the target is run long enough."""
    live = [r for r in w.recs if r.seq is not None]
    set_by = {r.op['aw']['set'] for r in live
              if r.op['aw']['set'] and r.shared is None}
    # tasks of the target run whenever it does
    ok = set()
    for r in live:
        src = r.shared or r
        a = src.op['aw']
        if a['wait'] is None or a['wait'] in set_by:
            ok.add(r.n)
    return ok
