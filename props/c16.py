"""C16: sync/async iterator bridges preserve the sequence and the errors."""

import asyncio
import concurrent.futures
import queue

from sim import target
from sim.runner import InvalidProgram

from .common import HarnessBase, alive, make_exc, pick
from .common import EXCS as _EXCS

ID = 'C16'
THREADS = True
BUDGET = {'quick': 9000, 'thorough': 300000}
SIM = {'max_steps': 200_000, 'max_time': 3_000_000.0}
FOCUS = ('to_async_iter', 'to_sync_iter')
RULE = ('seeded sources of 0..6 elements (generators, iterators, lists, '
        'ranges, async generators, async iterators) with None, falsy, equal '
        'and exception elements, a failure at any position or none, seeded '
        'producer and consumer step times, 1..3 bridges at once, consumers '
        'that abandon a bridge.  Judged: the consumed sequence by identity, '
        'the terminal exception, ticks of the loop in virtual time, helper '
        'threads after the end.  Non-trivial: at least two elements crossed '
        'threads')
REAL = ['aiuti.asyncio.to_async_iter, to_sync_iter (unmodified source)',
        'asyncio, queue.Queue, concurrent.futures thread pools']
STUB = ['threads, locks, selectors, clock', 'sources and consumers (harness)']
ASSUMPTIONS = ['preemption at source lines of aiuti.asyncio and at lock, queue '
               'and wake-up operations',
               'StopIteration and StopAsyncIteration are not used as errors: '
               'Python itself replaces them inside generators',
               'the loop is only required to stay responsive while an '
               'iterator blocks; other iterables are iterated in the loop by '
               'design']
TICK = 0.1
ACK = 40.0
EPS = 1e-6

aio_mod = None
_EXCS.setdefault('CfCancelled', concurrent.futures.CancelledError)
_EXCS.setdefault('CfInvalid', concurrent.futures.InvalidStateError)
_EXCS['SystemExit'] = SystemExit
ERRS = ('ValueError', 'RuntimeError', 'HarnessExc', 'TimeoutError', 'KeyError',
        'CancelledError', 'CfCancelled', 'CfInvalid', 'HarnessBase',
        'InvalidStateError', 'OSError', 'FalsyExc')


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')


class AlwaysEq:
    """Equal to everything and false."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False

    def __hash__(self):
        return 0


class Awaitable:
    def __await__(self):
        raise AssertionError('an element was awaited')
        yield


def element(name):
    return {'none': None, 'zero': 0, 'empty': '', 'false': False,
            'tuple': (), 'one': 1, 'eq': AlwaysEq(), 'list': [],
            'exc': ValueError('an element'), 'stop': StopIteration,
            'cls': object(), 'stopi': StopIteration(7), 'dots': ...,
            'astop': StopAsyncIteration(), 'qempty': queue.Empty(),
            'aw': Awaitable(), 'gexit': GeneratorExit(),
            'base': HarnessBase('an element')}.get(name, name)


def _src(rng, way):
    n = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 6))
    durs = rng.choice(((None,), (None, 0.0), (None, 0.0, 0.3, 1.0),
                       (0.3, 0.7, 1.9)))
    return {'elems': [rng.choice(('none', 'zero', 'empty', 'false', 'tuple',
                                  'one', 'eq', 'list', 'exc', 'stop', 'cls',
                                  'stopi', 'dots', 'astop', 'qempty', 'aw',
                                  'gexit', 'base', 'x', 'y')) for _ in range(n)],
            'durs': [rng.choice(durs) for _ in range(n + 1)],
            'fail': rng.choice(ERRS + (('SystemExit',) if way == 'sync' else ()))
            if rng.random() < 0.45 else None,
            'kind': pick(rng, (4, 'gen'), (3, 'iter'), (1, 'map'), (1, 'list'),
                         (0.5, 'range'), (0.7, 'iterable'), (0.2, 'bad'))
            if way == 'async' else pick(rng, (4, 'gen'), (3, 'iter'),
                                        (1, 'round'), (0.2, 'bad'))}


def generate(rng, tier):
    bridges = []
    ways = ('async', 'async', 'sync')
    big = rng.random()
    many = rng.choice((12, 40)) if big < 0.01 else None
    if many:
        ways = (rng.choice(('async', 'sync')),)
    for _ in range(many or pick(rng, (5, 1), (3, 2), (2, 3))):
        way = rng.choice(ways)
        b = {'way': way, 'src': _src(rng, way),
             'start': rng.choice((0.0, 0.0, 0.3)),
             'reads': [rng.choice((None, None, 0.0, 0.3, 0.9))
                       for _ in range(3)],
             'leave': None, 'loop': rng.random() < 0.3,
             'ack': rng.random() < 0.2}
        if way == 'async' and rng.random() < 0.2:
            b['leave'] = {'after': rng.randrange(0, 4),
                          'how': rng.choice(('break', 'cancel'))}
        if big > 0.993 and not bridges:
            n = rng.choice((65, 130, 300, 700, 1030, 1030, 2100))
            b['src']['elems'] = [rng.choice('xy') for _ in range(n)]
            b['src']['durs'] = [None] * (n + 1)
            b['reads'] = rng.choice(([None], [0.9] + [None] * 40))
            b['ack'] = b['ack'] and n < 100
        bridges.append(b)
    if rng.random() < 0.02 and not any(b['leave'] for b in bridges):
        # something takes for ages
        b = rng.choice(bridges)
        what = rng.choice((b['src']['durs'], b['reads']))
        what[rng.randrange(len(what))] = rng.choice((100.0, 4000.0, 40_000.0))
        if what is b['reads']:
            b['ack'] = False
        return {'bridges': bridges, 'ticker': False}
    return {'bridges': bridges, 'ticker': rng.random() < 0.6}


class Bridge:
    def __init__(self, n, spec):
        self.n = n
        self.spec = spec
        self.src = spec['src']
        self.elems = [element(e) for e in self.src['elems']]
        if self.src['kind'] == 'range':
            self.elems = list(range(len(self.elems)))
        f = self.src['fail']
        if self.src['kind'] in ('range', 'list'):
            f = None
        if self.src['kind'] == 'bad':
            self.elems = []
            f = f or 'ValueError'
        self.error = make_exc(f, n) if f else None
        self.got = []
        self.end = None              # 'stop' or the exception
        self.loop = None             # the loop given for the source
        self.left = False
        self.pulled = 0
        self.ended = False

    def __repr__(self):
        return f'bridge {self.n} ({self.spec["way"]}, {self.src["kind"]})'


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.viol = []
        self.bridges = []
        self.blocked = 0.0

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    def starving(self, b, i, end):
        """Is the consumer still waiting for what was produced already?

        Such a source produces the next element only once the consumer got
        all the previous ones.
        """
        if len(b.got) >= i or b.left or b.end is not None:
            return False
        if self.sim.time > end:
            self.flag('withheld', f'{b}: the consumer got {len(b.got)} of the '
                      f'{i} elements produced {ACK} s ago')
            return False
        self.sim.count('probe.waited_for_consumer')
        return True

    # -- sources -----------------------------------------------------------------------

    def sync_source(self, b):
        sim, kind, d = self.sim, b.src['kind'], b.src['durs']
        if kind == 'list':
            return list(b.elems)
        if kind == 'range':
            return range(len(b.elems))

        if kind == 'bad':
            class Bad:
                def __iter__(self):
                    raise b.error
            return Bad()

        def gen(block=True):
            for i, e in enumerate(b.elems):
                if block and d[i] is not None:
                    sim.sleep(d[i])
                if block and b.spec['ack']:
                    end = sim.time + ACK
                    while self.starving(b, i, end):
                        sim.sleep(0.1)
                b.pulled += 1
                sim.event('produce', b.n, i)
                yield e
            if block and d[len(b.elems)] is not None:
                sim.sleep(d[len(b.elems)])
            b.ended = True
            sim.event('produced', b.n)
            if b.error is not None:
                raise b.error

        if kind == 'gen':
            return gen()
        if kind == 'map':
            return map(lambda e: e, gen())
        if kind == 'iterable':
            class Able:
                def __iter__(self):
                    return gen(False)
            return Able()

        class It:
            def __init__(self):
                self.g = gen()

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.g)
        return It()

    def async_source(self, b):
        sim, kind, d = self.sim, b.src['kind'], b.src['durs']

        if kind == 'bad':
            class Bad:
                def __aiter__(self):
                    raise b.error
            return Bad()

        async def gen():
            for i, e in enumerate(b.elems):
                if d[i] is not None:
                    await asyncio.sleep(d[i])
                if b.loop is not None and i % 2 == 0:
                    # only to be awaited on the loop given for this source
                    fut = b.loop.create_future()
                    b.loop.call_soon(fut.set_result, None)
                    await fut
                if b.spec['ack']:
                    end = sim.time + ACK
                    while self.starving(b, i, end):
                        await asyncio.sleep(0.1)
                b.pulled += 1
                sim.event('produce', b.n, i)
                yield e
            if d[len(b.elems)] is not None:
                await asyncio.sleep(d[len(b.elems)])
            b.ended = True
            sim.event('produced', b.n)
            if b.error is not None:
                raise b.error

        if kind == 'gen':
            return gen()
        if kind == 'round':
            # there and back again
            b.src = dict(b.src, kind='gen')
            return aio_mod.to_async_iter(self.sync_source(b))

        class It:
            def __init__(self):
                self.i = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                i, self.i = self.i, self.i + 1
                if i <= len(b.elems) and d[i] is not None:
                    await asyncio.sleep(d[i])
                if i < len(b.elems):
                    b.pulled += 1
                    sim.event('produce', b.n, i)
                    return b.elems[i]
                b.ended = True
                if b.error is not None and i == len(b.elems):
                    raise b.error
                raise StopAsyncIteration
        return It()

    # -- consumers ------------------------------------------------------------------------

    async def consume_async(self, b):
        sim = self.sim
        sp = b.spec
        await asyncio.sleep(sp['start'])
        it = aio_mod.to_async_iter(self.sync_source(b))
        lv = sp['leave']
        try:
            if lv and lv['how'] == 'break' and lv['after'] == 0:
                b.left = True
                await it.aclose()
                return
            async for x in it:
                b.got.append(x)
                sim.event('consume', b.n, len(b.got))
                d = sp['reads'][len(b.got) % len(sp['reads'])]
                if d is not None:
                    await asyncio.sleep(d)
                if lv and lv['how'] == 'break' and len(b.got) >= lv['after']:
                    b.left = True
                    sim.count('fault.consumer_left')
                    await it.aclose()
                    break
            b.end = b.end or 'stop'
        except BaseException as e:
            b.end = e
        await it.aclose()       # nothing left to the garbage collector
        sim.event('end', b.n, type(b.end).__name__)

    async def leaver(self, b, task):
        """Cancels a consumer in the middle of a read."""
        while not task.done() and len(b.got) < b.spec['leave']['after']:
            await asyncio.sleep(TICK / 2)
        if not task.done():
            b.left = True
            self.sim.count('fault.consumer_cancelled')
            task.cancel()

    def consume_sync(self, b):
        sim = self.sim
        sp = b.spec
        sim.sleep(sp['start'])
        kw = {}
        if sp['loop']:
            kw['loop'] = b.loop = asyncio.new_event_loop()
        try:
            for x in aio_mod.to_sync_iter(self.async_source(b), **kw):
                b.got.append(x)
                sim.event('consume', b.n, len(b.got))
                d = sp['reads'][len(b.got) % len(sp['reads'])]
                if d is not None:
                    sim.sleep(d)
            b.end = 'stop'
        except BaseException as e:
            if type(e).__name__ == 'ThreadKilled':
                raise
            b.end = e
        sim.event('end', b.n, type(b.end).__name__)

    async def ticker(self):
        sim = self.sim
        last = sim.time
        while True:
            await asyncio.sleep(TICK)
            now = sim.time
            if now - last > TICK + EPS:
                self.flag('blocked-loop', f'the loop did not run from {last} '
                          f'to {now}')
            last = now

    def run(self):
        sim, prog = self.sim, self.prog
        if not prog['bridges']:
            raise InvalidProgram('nothing to do')
        for i, spec in enumerate(prog['bridges']):
            if len(spec['src']['durs']) != len(spec['src']['elems']) + 1 \
                    or not spec['reads']:
                raise InvalidProgram('shape')
            self.bridges.append(Bridge(i, spec))
        ths = [sim.spawn(self.consume_sync, name=f'S{b.n}', args=(b,))
               for b in self.bridges if b.spec['way'] == 'sync']
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)

        async def main():
            tick = loop.create_task(self.ticker()) if prog['ticker'] \
                else None
            tasks, extra = [], []
            for b in self.bridges:
                if b.spec['way'] == 'async':
                    t = loop.create_task(self.consume_async(b))
                    tasks.append(t)
                    if b.spec['leave'] and b.spec['leave']['how'] == 'cancel':
                        extra.append(loop.create_task(self.leaver(b, t)))
            if tasks:
                await asyncio.wait(tasks, timeout=900_000)
            sim.event('consumed')
            # whoever left a bridge: its source still moves on once
            await asyncio.sleep(20 if any(b.left for b in self.bridges)
                                else 0.01)
            if tick is not None:
                tick.cancel()

        loop.run_until_complete(main())
        end = sim.time + 900_000
        for t in ths:
            sim.join(t, max(0.01, end - sim.time))
        sim.sleep(0.01)
        self.left = [t.name for t in sim.helpers_alive()]
        if self.left:
            self.flag('helper-left', f'{self.left} still alive after every '
                      'iteration ended')
        sim.event('over')
        loop.close()


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


def same(a, b):
    return len(a) == len(b) and all(
        x is y or type(x) is type(y) is int and x == y for x, y in zip(a, b))


def brief(xs):
    return f'{xs!r}' if len(xs) < 12 else f'{xs[:6]!r}.. ({len(xs)})'


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    viol = list(w.viol)
    sim.data['nontrivial'] = any(
        len(b.got) > 1 and b.src['kind'] not in ('list', 'range', 'iterable')
        for b in w.bridges)
    for b in w.bridges:
        if b.left:
            if not same(b.got, b.elems[:len(b.got)]):
                viol.append(('sequence', f'{b}: {brief(b.elems)} became '
                             f'{brief(b.got)}'))
            continue
        if b.end is None:
            viol.append(('hang', f'{b} never ended (outcome of the run: '
                         f'{outcome}); got {len(b.got)} of {len(b.elems)}'))
            continue
        if not same(b.got, b.elems):
            viol.append(('sequence', f'{b}: {brief(b.elems)} became '
                             f'{brief(b.got)}'))
        if b.error is None:
            if b.end != 'stop':
                viol.append(('spurious-error', f'{b}: {b.end!r}'))
        elif b.end is not b.error and not (
                isinstance(b.error, asyncio.CancelledError)
                and isinstance(b.end, asyncio.CancelledError)):
            viol.append(('error', f'{b}: source raised {b.error!r}, consumer '
                         f'saw {b.end!r}'))
    if outcome != 'done' and not viol:
        viol.append((f'stuck-{outcome}', repr(sim.describe())))
    return viol
