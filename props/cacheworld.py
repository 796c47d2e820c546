"""
The world of C01, C05 and C06: threads with their own event loops calling one
``threadsafe_async_cache`` function, loop life-cycle events, cancellation.
"""

import asyncio
import contextvars
import gc

from sim import target
from .common import cancel_all, make_exc, pick

aio_mod = None
CALL = contextvars.ContextVar('call', default=None)

REAL = ['aiuti.asyncio.threadsafe_async_cache (unmodified source, every line a '
        'switch point)', 'asyncio event loops, tasks, futures, Event, '
        'wait_for, shield, run_coroutine_threadsafe, wrap_future',
        'threading.Condition/Event, concurrent.futures.Future']
STUB = ['threading.Lock/RLock (simulated blocking)', 'selector and '
        'self-wakeup of the loops', 'monotonic/wall clock', 'the wrapped '
        'function and the callers (harness)']
ASSUMPTIONS = ['preemption happens at source lines of aiuti and at '
               'lock/loop-wakeup operations, not inside a line',
               'C01: loops are not restarted after stopping with a call '
               'pending (other than the shutdown run that cancels leftovers)']

SIM = {'max_steps': 60_000, 'max_time': 400_000.0}
STALLS = (0.003, 0.02, 0.2, 70.0)
STALL_P = 0.08
FOCUS = ('threadsafe_async_cache',)


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')


class Mapping:
    """A retaining MutableMapping with switch points of its own."""

    def __init__(self, sim):
        self._sim = sim
        self._d = {}

    def __getitem__(self, k):
        self._sim.point('map.get')
        return self._d[k]

    def __setitem__(self, k, v):
        self._sim.point('map.set')
        self._d[k] = v
        self._sim.point('map.set.done')

    def __delitem__(self, k):
        del self._d[k]

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        self._sim.point('map.contains')
        return k in self._d

    def get(self, k, default=None):
        self._sim.point('map.get')
        return self._d.get(k, default)

    def setdefault(self, k, v=None):
        self._sim.point('map.set')
        return self._d.setdefault(k, v)

    def pop(self, k, *a):
        return self._d.pop(k, *a)

    def keys(self):
        return list(self._d)


class Sieve(Mapping):
    """Retains nothing."""

    def __setitem__(self, k, v):
        self._sim.point('map.set')

    def setdefault(self, k, v=None):
        return v


class Leaky(Mapping):
    """Entries vanish after some accesses or some time (as in an LRU or TTL
    cache), possibly between asking for one and getting it."""

    LEFT = (1, 2, 3, 5, 2, 1)
    TTL = (0.0, 0.02, 0.05, 0.5, 60.0)

    def __init__(self, sim):
        super().__init__(sim)
        self._left = {}
        self._n = 0

    def _touch(self, k):
        if k in self._left:
            left, until = self._left[k]
            if left <= 0 or self._sim.time > until:
                self._sim.count('fault.evicted')
                self._left.pop(k)
                self._d.pop(k, None)
            else:
                self._left[k] = left - 1, until

    def _stored(self, k):
        self._n += 1
        self._left[k] = (self.LEFT[self._n % 6],
                         self._sim.time + self.TTL[self._n % 5])

    def __getitem__(self, k):
        self._touch(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self._touch(k)
        return super().__contains__(k)

    def get(self, k, default=None):
        self._touch(k)
        return super().get(k, default)

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self._stored(k)

    def setdefault(self, k, v=None):
        r = super().setdefault(k, v)
        self._stored(k)
        return r


class Token:
    """A result: tells from which invocation; may be falsy or have no truth
    value, and may equal everything."""

    def __init__(self, kind, n):
        self.kind = kind
        self.n = n

    def __bool__(self):
        if self.kind == 'nobool':
            raise ValueError('the truth value is ambiguous')
        return self.kind != 'falsy'

    def __eq__(self, other):
        return self.kind == 'eqall' or self is other

    def __hash__(self):
        return self.n

    def __repr__(self):
        return f'<{self.kind} {self.n}>'


def make_result(kind, key, n):
    if kind in ('falsy', 'nobool', 'eqall'):
        return Token(kind, n)
    if kind == 'exc':
        return ValueError('a result', key, n)
    return {'none': None, 'zero': 0}.get(kind, ('value', key, n))


class Arg:
    """Equal to its copies."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Arg) and other.v == self.v

    def __hash__(self):
        return hash(self.v)


def make_call(cached, shape, key, n):
    """The n-th call for `key`: equal arguments, differently given."""
    if shape == 'kw':
        return cached(key=key)
    if shape == 'kws':
        if n % 2:
            return cached(key=key, a=1, b='x')
        return cached(b='x', a=1, key=key)
    if shape == 'arg':
        return cached(Arg(key), 'x')
    if shape == 'num':
        return cached(float(key) if n % 2 else key)
    return cached(key)


# -- generation -------------------------------------------------------------------

GRID = (0, 0, 0.005, 0.01, 0.01, 0.015, 0.02, 0.03, 0.05)
DURS = (None, None, 0, 0.005, 0.01, 0.01, 0.02, 0.03, 0.05, 0.5, 3)


def generate(rng, tier, *, fail_p, cancel_p, fate_p, fates=None, excs=None,
             sieve=False, resume=False):
    nthreads = pick(rng, (5, 2), (4, 3), (2, 4), (1, 1), (0.15, 7))
    nkeys = pick(rng, (6, 1), (2, 2), (0.5, 4))
    fate_p = rng.choice((0, fate_p, fate_p * 1.5))
    cancel_p = rng.choice((0, cancel_p, cancel_p * 1.5))
    fail_p = rng.choice((0, fail_p, fail_p * 1.5))
    fates = fates or ('run', 'run', 'linger', 'linger', 'stop_close',
                      'abandon', 'drop') + (('resume',) * 2 * resume)
    excs = excs or ('ValueError', 'KeyError', 'RuntimeError', 'HarnessExc',
                    'TimeoutError', 'CancelledError', 'HarnessBase',
                    'CancelSub', 'LookupError', 'FalsyExc')
    base = rng.choice(DURS)
    other = rng.random() < 0.12

    def dur():
        return base if rng.random() < 0.5 else rng.choice(DURS)

    threads = []
    for _ in range(nthreads):
        callers = []
        for _ in range(pick(rng, (4, 1), (3, 2), (2, 3), (0.15, 12))):
            c = {'at': rng.choice(GRID), 'key': rng.randrange(nkeys),
                 'n': pick(rng, (6, 1), (1, 2), (1, 3)),
                 'cancel': None, 'wait_for': None, 'again': None}
            if rng.random() < cancel_p:
                if rng.random() < 0.5:
                    c['cancel'] = round(c['at'] + rng.choice(GRID), 4)
                    if rng.random() < 0.2:
                        c['again'] = rng.choice((0, 0.001, 0.01))
                else:
                    c['wait_for'] = rng.choice((0, 0.005, 0.01, 0.02, 0.03,
                                                0.6))
            if rng.random() < 0.03:
                c['at'] = rng.choice((0.6, 61, 700, 4000, 100_000))
            if other and rng.random() < 0.4:
                c['other'] = True
            elif rng.random() < 0.0015:
                c.update(sweep=rng.choice((130, 300)), wait_for=None,
                         cancel=None)
            callers.append(c)
        t = {'start': rng.choice(GRID), 'fate': 'run', 'stop_at': None,
             'linger': 0, 'callers': callers}
        if rng.random() < fate_p:
            t['fate'] = rng.choice(fates)
            t['stop_at'] = rng.choice((0, 0.005, 0.01, 0.015, 0.02, 0.04,
                                       0.2, 1))
            t['linger'] = rng.choice((0, 0, 0.001, 0.005, 0.01, 0.02, 0.5,
                                      61))
        threads.append(t)
    comps = {}
    for k in range(nkeys):
        seq = []
        for _ in range(6):
            out = 'ok'
            if rng.random() < fail_p:
                out = rng.choice(excs)
            seq.append({'dur': dur(), 'out': out,
                        'tail': rng.choice((None, None, None, None, 0, 0.01))
                        if rng.random() < cancel_p else None,
                        'sync': rng.random() < 0.2})
        comps[str(k)] = seq
    if rng.random() < 0.01:
        rng.choice(comps['0'])['dur'] = rng.choice((130.0, 700.0, 4000.0))
    if rng.random() < 0.003:
        # a lot of keys are being computed at once
        nkeys = rng.choice((20, 40))
        for k in range(nkeys):
            comps[str(k)] = comps['0']
        for t in threads[:2]:
            c = {**t['callers'][0], 'n': 1, 'cancel': None, 'wait_for': None,
                 'again': None}
            c.pop('sweep', None)
            t['callers'] = [{**c, 'key': k} for k in range(nkeys)]
    if nkeys > 1 and rng.random() < 0.35:
        # computing key 0 calls for key 1
        for c in comps['0']:
            if rng.random() < 0.7:
                c['nest'] = 1
    prog = {'cache': rng.choice(('default', 'default', 'dict', 'mapping')
                                + (('sieve', 'leaky', 'leaky') if sieve else ())),
            'result': pick(rng, (6, 'tuple'), (1, 'falsy'), (1, 'nobool'),
                           (1, 'eqall'), (1, 'exc'), (0.5, 'none'),
                           (0.5, 'zero')),
            'shape': pick(rng, (6, 'pos'), (1, 'kw'), (1, 'kws'), (1, 'arg'),
                          (1, 'num')),
            'plain': rng.random() < 0.25,
            'threads': threads, 'comps': comps}
    if any(t['fate'] == 'drop' for t in threads) and rng.random() < 0.7:
        prog['gc'] = [[rng.randrange(1, nthreads + 1), rng.randrange(2, 60)]
                      for _ in range(rng.choice((1, 2, 4)))]
    return prog


# -- running ------------------------------------------------------------------------

class Inv:
    __slots__ = ('id', 'key', 'call', 'loop', 'serial', 'epoch', 'seq0', 't0',
                 'seq1', 't1', 'how', 'value')

    def running(self):
        """In progress in the widest sense (also during a shutdown run)."""
        return (self.how is None and self.loop is not None
                and self.loop.is_running())

    def live(self):
        return (self.how is None and self.loop is not None
                and self.loop.run_epoch == self.epoch
                and self.loop.is_running())


class Call:
    __slots__ = ('id', 'key', 'loop', 'serial', 'begin', 't0', 'end', 't1',
                 'out', 'value', 'exc', 'cancels', 'shut', 'deadline', 'task',
                 'cancel_seq', 'epoch')


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.invs = []
        self.calls = []
        self.viol = []
        self.stops = {}       # loop serial -> virtual time it last stopped
        self.hosts = {}       # key -> set of loop serials that hosted it
        self.keep = []
        self.ncomp = {}
        self.shut = set()     # serials of loops being shut down
        self.delays = []
        self.cached = None
        self.ncalls = 0
        self.ncalls2 = {}
        self.resumed = {}     # loop serial -> virtual time it ran again
        self.tasks = {}       # thread -> tasks of its callers
        self.gone = set()     # serials of loops left with their tasks pending

    def violate(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    # the wrapped function
    def plain(self, *args, **kw):
        """Not a coroutine function: may raise before there is anything to
        await."""
        key = self.key_of(args, kw)
        if self.spec(key)['sync'] and self.spec(key)['out'] != 'ok':
            inv = self.begin(key)
            spec = self.next(key)
            self.end(inv, 'raised')
            raise make_exc(spec['out'], ('inv', inv.id))
        return self.func(*args, **kw)

    def key_of(self, args, kw):
        key = kw['key'] if 'key' in kw else args[0]
        return int(key.v if isinstance(key, Arg) else key)

    def spec(self, key):
        seq = self.prog['comps'].get(str(key)) or [
            {'dur': None, 'out': 'ok', 'tail': None}]
        return dict({'sync': False, 'nest': None},
                    **seq[min(self.ncomp.get(key, 0), len(seq) - 1)])

    def next(self, key):
        spec = self.spec(key)
        self.ncomp[key] = self.ncomp.get(key, 0) + 1
        return spec

    def begin(self, key):
        sim = self.sim
        loop = asyncio.get_running_loop()
        inv = Inv()
        inv.id = len(self.invs)
        inv.key = key
        inv.call = CALL.get()
        inv.loop = loop
        inv.serial = loop.serial
        inv.epoch = loop.run_epoch
        inv.t0 = sim.time
        inv.how = inv.value = None
        inv.seq1 = inv.t1 = None
        for o in self.invs:
            if o.key != key:
                continue
            if o.live():
                self.violate('overlap', f'invocation {inv.id} for key {key} '
                             f'entered while invocation {o.id} is in progress')
            elif o.how == 'ok':
                self.violate('recompute', f'invocation {inv.id} for key {key} '
                             f'entered after invocation {o.id} succeeded')
        self.invs.append(inv)
        self.hosts.setdefault(key, set()).add(loop.serial)
        inv.seq0 = sim.event('enter', inv.id, key, inv.call, loop.serial)
        return inv

    async def func(self, *args, **kw):
        key = self.key_of(args, kw)
        inv = self.begin(key)
        spec = self.next(key)
        try:
            try:
                if spec['nest'] is not None and spec['nest'] > key:
                    await self.nested(spec['nest'], inv)
                if spec['dur'] is not None:
                    await asyncio.sleep(spec['dur'])
                if spec['out'] != 'ok':
                    raise make_exc(spec['out'], ('inv', inv.id))
            finally:
                if spec['tail'] is not None:
                    await asyncio.sleep(spec['tail'])
        except BaseException as e:
            if isinstance(e, GeneratorExit):
                how = 'abandoned'
            elif getattr(e, 'tag', None) == ('inv', inv.id):
                how = 'raised'
            else:
                how = 'cancelled'
            self.end(inv, how)
            raise
        same = inv.loop.run_epoch == inv.epoch
        inv.value = make_result(self.prog.get('result'), key, inv.id)
        self.end(inv, 'ok' if same else 'late-ok')
        return inv.value

    async def nested(self, key, inv):
        """An invocation calls the cached function for another key."""
        mine = CALL.get()
        c = self.new_call(f'{mine}/{inv.id}', key)
        for o in self.calls:         # cancelled before it got here?
            if o.id == mine:
                c.cancels = o.cancels
                c.deadline = o.deadline
        CALL.set(c.id)
        try:
            await self.observe(c, self.cached)
        except BaseException as e:
            if isinstance(e, GeneratorExit) or c.serial in self.gone:
                raise            # collected, in whatever context
            CALL.set(mine)
            if getattr(e, 'tag', None) is None:
                raise
        else:
            CALL.set(mine)

    def new_call(self, cid, key):
        c = Call()
        c.id = cid
        c.key = key
        c.loop = asyncio.get_running_loop()
        c.serial = c.loop.serial
        c.epoch = c.loop.run_epoch
        c.t0 = self.sim.time
        c.end = c.t1 = c.out = c.value = c.exc = None
        c.cancels = 0
        c.cancel_seq = None
        c.deadline = None
        c.task = asyncio.current_task()
        self.calls.append(c)
        c.begin = self.sim.event('call', c.id, c.key)
        return c

    def end(self, inv, how):
        inv.how = how
        inv.t1 = self.sim.time
        inv.seq1 = self.sim.event('leave', inv.id, how)
        inv.loop = None

    # a caller
    async def call(self, spec, cid, cached):
        sim = self.sim
        await asyncio.sleep(spec['at'])
        if spec.get('other'):
            await self.call_other(spec)
            return
        sweep = spec.get('sweep', 0)
        for r in range(2 * sweep or spec['n']):
            c = self.new_call(f'{cid}.{r}', 1000 + r % sweep if sweep
                              else spec['key'])
            CALL.set(c.id)
            try:
                if spec['wait_for'] is not None:
                    c.deadline = sim.time + spec['wait_for']
                    async with asyncio.timeout(spec['wait_for']):
                        await self.observe(c, cached)
                else:
                    await self.observe(c, cached)
            except (Exception, asyncio.CancelledError, BaseException) as e:
                if isinstance(e, GeneratorExit):
                    raise
                if c.cancels or c.serial in self.shut or c.serial in self.gone:
                    raise
                if isinstance(e, asyncio.CancelledError) and \
                        getattr(e, 'tag', None) is None and \
                        c.out != 'cancelled-by-nobody':
                    raise

    async def other(self, *args, **kw):
        """Another cached function, called with the same arguments."""
        key = self.key_of(args, kw)
        self.sim.event('other', key)
        self.ncalls2[key] = self.ncalls2.get(key, 0) + 1
        await asyncio.sleep(0.01)
        return 'other', key

    async def call_other(self, spec):
        for r in range(spec['n']):
            v = await make_call(self.cached2, self.prog.get('shape'),
                                spec['key'], r)
            if v != ('other', spec['key']) or \
                    not self.ncalls2.get(spec['key']):
                self.violate('mixed-up', f'another cached function returned '
                             f'{v!r} for key {spec["key"]}')

    async def observe(self, c, cached):
        sim = self.sim
        try:
            self.ncalls += 1
            v = await make_call(cached, self.prog.get('shape'), c.key,
                                self.ncalls)
        except BaseException as e:
            c.loop = None
            c.task = None
            c.t1 = sim.time
            if isinstance(e, GeneratorExit) or c.serial in self.gone:
                # the coroutine is being collected: nobody sees this
                c.out = 'abandoned'
                c.end = sim.event('abandoned', c.id)
                raise
            c.exc = e
            if getattr(e, 'tag', None) is not None:
                c.out = 'exc'
            elif isinstance(e, asyncio.CancelledError):
                timed = c.deadline is not None and \
                    sim.time >= c.deadline - 1e-6
                c.out = 'cancelled' if (c.cancels or timed
                                        or c.serial in self.shut) \
                    else 'cancelled-by-nobody'
            else:
                c.out = 'exc'
            c.end = sim.event('return', c.id, c.out, type(e).__name__)
            raise
        c.loop = None
        c.task = None
        c.value = v
        c.t1 = sim.time
        c.out = 'value'
        c.end = sim.event('return', c.id, 'value', repr(v))

    async def main(self, ti, spec, cached):
        loop = asyncio.get_running_loop()
        tasks = []
        for i, cs in enumerate(spec['callers']):
            t = loop.create_task(self.call(cs, f'{ti}.{i}', cached))
            tasks.append(t)
            if cs['cancel'] is not None:
                loop.call_later(cs['cancel'], self.cancel, t)
                if cs['again'] is not None:
                    loop.call_later(cs['cancel'] + cs['again'], self.cancel, t)
        if spec['fate'] != 'drop':
            self.keep.extend(tasks)
        if spec['fate'] == 'resume':
            self.tasks[ti] = tasks
        if tasks:
            await asyncio.wait(tasks, timeout=spec['stop_at'])

    def cancel(self, task):
        if task.done():
            return
        found = False
        for c in self.calls:
            if c.task is task and c.out is None:
                c.cancels += 1
                c.cancel_seq = self.sim.event('cancel', c.id)
                self.sim.count('fault.caller_cancel')
                found = True
        if not found:
            return      # not inside a call: nothing of interest to cancel
        task.cancel()

    def thread(self, ti, spec, cached):
        sim = self.sim
        sim.sleep(spec['start'])
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        serial = loop.serial
        if spec['fate'] != 'drop':
            self.keep.append(loop)
        loop.run_until_complete(self.main(ti, spec, cached))
        self.stopped(serial)
        pending = any(not t.done() for t in asyncio.all_tasks(loop))
        fate = spec['fate']
        if pending and spec['stop_at'] is not None:
            sim.count(f'fault.loop_{fate}')
        if spec['linger']:
            sim.sleep(spec['linger'])
        if fate == 'resume' and pending:
            # the same loop is run again
            self.resumed[serial] = sim.time
            sim.event('resumed', serial)
            loop.run_until_complete(asyncio.wait(self.tasks[ti]))
            self.stopped(serial)
        if fate in ('run', 'linger', 'resume'):
            self.shut.add(serial)
            sim.event('shutdown', serial)
            try:
                self.keep.extend(cancel_all(sim, loop))
                loop.run_until_complete(loop.shutdown_asyncgens())
            finally:
                asyncio.set_event_loop(None)
                loop.close()
            self.stopped(serial)
        elif fate == 'abandon':
            self.gone.add(serial)
        elif fate == 'stop_close':
            self.gone.add(serial)
            loop.close()
            self.stopped(serial)
        elif fate == 'drop':
            self.gone.add(serial)
            for c in self.calls:
                if c.serial == serial:
                    c.task = c.loop = None
            for inv in self.invs:
                if inv.serial == serial:
                    inv.loop = None
            asyncio.set_event_loop(None)
            loop.close()
            self.stopped(serial)
            del loop
            if not self.prog.get('gc'):
                gc.collect()
                sim.count('fault.gc')
        sim.event('thread-end', ti)

    def stopped(self, serial):
        self.stops[serial] = self.sim.time
        self.sim.event('stopped', serial)

    def quiescent(self):
        """Nothing can run: every pending caller must be waiting for work."""
        sim = self.sim
        if any(t.waiting_on == 'sleep' and t.state == 1 and t.stalled
               for t in sim.threads):
            return
        now = sim.time
        for c in self.calls:
            if c.out is not None or c.loop is None \
                    or not c.loop.is_running() \
                    or (c.loop.run_epoch != c.epoch
                        and c.serial not in self.resumed):
                continue
            live = [i for i in self.invs if i.key == c.key and i.running()]
            if c.cancels and not any(i.call == c.id for i in live):
                self.delays.append(('cancel-stuck', f'call {c.id} was '
                                    f'cancelled but does not end', now))
                c.out = 'flagged'
                continue
            if live:
                continue
            grace = [self.stops[s] for s in self.hosts.get(c.key, ())
                     if s in self.stops]
            if c.serial in self.resumed:
                grace.append(self.resumed[c.serial])
            if grace and now <= max(max(grace), sim.last_stall) + 60 + 1e-3:
                continue
            last = [i for i in self.invs if i.key == c.key]
            how = last[-1].how if last else None
            self.delays.append((
                'waits-for-nothing', f'call {c.id} for key {c.key} waits at '
                f't={now:.4f} although no invocation is in progress '
                f'(last ended: {how})', now, how))
            c.out = 'flagged'


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    kind = prog['cache']
    if any(c.get('sweep') for t in prog['threads'] for c in t['callers']):
        sim.max_steps *= 6
    if any(t['fate'] == 'drop' for t in prog['threads']):
        sim.keep_loops = False
    deco = aio_mod.threadsafe_async_cache
    func = w.plain if prog.get('plain') else w.func
    if kind == 'default':
        cached = deco(func)
    elif kind == 'dict':
        cached = deco(cache={})(func)
    else:
        cached = deco(func, cache={'sieve': Sieve, 'leaky': Leaky}.get(
            kind, Mapping)(sim))
    w.cached = cached
    w.cached2 = deco(w.other) if kind == 'default' else \
        deco(w.other, cache={})
    sim.quiescent_hooks.append(w.quiescent)
    plan = {(a, b) for a, b in prog.get('gc') or ()}
    if plan:
        def hook(th, code, line):
            if (th.tid, th.line_k) in plan:
                sim.count('fault.gc')
                gc.collect()
        sim.line_hooks.append(hook)
    ths = [sim.spawn(w.thread, name=f'T{i}', args=(i, t, cached))
           for i, t in enumerate(prog['threads'])]
    for t in ths:
        sim.join(t)
    if plan:
        gc.collect()


def nontrivial(w):
    """Two threads' calls for one key touched."""
    keys = {}
    for c in w.calls:
        keys.setdefault(c.key, set()).add(c.serial)
    return any(len(v) > 1 for v in keys.values())
