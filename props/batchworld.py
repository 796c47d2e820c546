"""
The world of C04, C09, C10 and C11: callers of one batcher on one event loop,
a scripted batch function, cancellations at seeded instants.
"""

import asyncio

from sim import target
from sim.runner import InvalidProgram

from .common import make_exc, pick, shutdown

aio_mod = None

REAL = ['aiuti.asyncio.AsyncBackgroundBatcher, async_background_batcher, '
        'DaemonTask (unmodified source)',
        'asyncio loop, tasks, futures, Queue, Semaphore, wait_for, timers']
STUB = ['selector and clock of the loop', 'the batch function and the callers '
        '(harness)']
ASSUMPTIONS = ['one event loop: the interleavings are those of asyncio\'s '
               'FIFO ready queue under seeded arrival, duration and '
               'cancellation instants (single-threaded code)',
               'the batch function itself terminates']
SIM = {'max_steps': 200_000, 'max_time': 10_000_000.0}
FOCUS = ('AsyncBackgroundBatcher',)
EPS = 1e-6
DEFAULTS = {'max_batch_size': 256, 'max_concurrent_batches': 5,
            'batch_timeout': 0.05, 'retention_timeout': 0.0}

ITEM_EXCS = ('ValueError', 'RuntimeError', 'HarnessExc', 'TimeoutError',
             'KeyError', 'InvalidStateError', 'StopAsyncIteration',
             'LookupError', 'StopIteration', 'FalsyExc')
RAISE_EXCS = ('ValueError', 'RuntimeError', 'HarnessExc', 'TimeoutError',
              'KeyError', 'LookupError', 'FalsyExc', 'StopIteration',
              'StopAsyncIteration')
BASE_EXCS = ('CancelledError', 'CancelSub', 'HarnessBase')

from .common import EXCS as _EXCS     # noqa
_EXCS.setdefault('StopIteration', StopIteration)


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')


# -- generation --------------------------------------------------------------------------

def generate(rng, tier, *, cancel_p=0.0, fail_p=0.3, weird_p=0.05, base_p=0.1,
             dup_p=0.3, retain_p=0.4, mutate_p=0.0, styles=(0, 1, 2, 3),
             big_p=0.1, twin_p=0.12, huge_p=0.006,
             slow_p=0.02):
    bt = rng.choice((0.05, 0.05, 0.01, 1.0, 0.2, 30.0))
    U = bt
    huge = rng.random() < huge_p
    if rng.random() < 0.05:
        bt = 0.0
    n = pick(rng, (3, rng.randrange(1, 4)), (4, rng.randrange(3, 9)),
             (2, rng.randrange(8, 16)))
    if rng.random() < big_p:
        n = rng.randrange(16, 40)
    if huge:
        n = rng.choice((257, 258, 300, 513, 700))
    nkeys = n if rng.random() < 0.4 else rng.randrange(1, max(2, n))
    cancel_p = rng.choice((cancel_p * 0.5, cancel_p, cancel_p * 1.5))
    gaps = rng.choice(((0.0,), (0.0, 0.0, 0.37), (0.0, 0.37, 0.71, 0.93),
                       (0.37, 0.93, 1.13, 1.7), (0.0, 0.37, 1.13, 2.9, 7.3)))
    t = 0.0
    calls = []
    keys = []
    empty = rng.random() < 0.15
    if huge:
        gaps = rng.choice(((0.0,), (0.0,) * 60 + (0.37, 0.93, 1.13)))
        dup_p = rng.choice((0, dup_p * 0.2))
    for i in range(n):
        t += rng.choice(gaps) * U
        if keys and rng.random() < dup_p:
            k = rng.choice(keys)
        elif huge:
            k = i
        else:
            k = len(set(keys)) if rng.random() < 0.7 else rng.randrange(nkeys)
        keys.append(k)
        c = {'at': round(t, 6), 'key': f'k{k}' if k or not empty else '', 'explicit': rng.random() < 0.7, 'none': rng.random() < 0.3,
             'spin': rng.choice((0, 0, 0, 0, 1, 2, 3)),
             'cancel': None, 'again': False}
        if rng.random() < cancel_p:
            c['cancel'] = {'how': rng.choice(('task', 'task', 'wait_for')),
                           'after': round(rng.choice(
                               (0.0, 0.0, 0.2, 0.5, 1.0, 1.3, 1.5, 2.0, 3.7))
                               * U, 6),
                           'spin': rng.choice((0, 0, 1, 1, 2, 3, 4, 5))}
            c['again'] = rng.random() < 0.2
        calls.append(c)
    scripts = []
    dset = rng.choice(((None,), (None, 0.0, 0.3), (0.5, 1.0, 2.1),
                       (None, 0.0, 0.5, 1.0, 4.0)))
    fail_p = rng.choice((0, fail_p, fail_p * 1.5))
    for _ in range(6):
        s = {'order': rng.choice(('as', 'as', 'rev', 'shuf')),
             'salt': rng.randrange(1000),
             'start': rng.choice(dset), 'tail': rng.choice(dset),
             'durs': [None if (d := rng.choice(dset)) is None else
                      round(d * U, 6) for _ in range(4)],
             'outs': [pick(rng, (6, 'val'), (1, 'falsy'))
                      if rng.random() >= fail_p else
                      pick(rng, (4, 'exc'), (2, 'omit'),
                           (0.5, 'bexc')) for _ in range(5)],
             'exc': rng.choice(ITEM_EXCS),
             'raise': None, 'weird': None, 'kind': pick(
                 rng, (6, 'gen'), (1, 'obj'), (0.5, 'call'), (0.25, 'aiter'),
                 (0.25, 'next')),
             'grab': pick(rng, (8, None), (1, 'clear'), (1, 'reverse'))}
        for f in ('start', 'tail'):
            if s[f] is not None:
                s[f] = round(s[f] * U, 6)
        if rng.random() < fail_p:
            s['raise'] = {'at': rng.choice((0, 0, 1, 2, 99)),
                          'exc': rng.choice(BASE_EXCS) if rng.random() < base_p
                          else rng.choice(RAISE_EXCS)}
        if rng.random() < weird_p:
            s['weird'] = {'at': rng.choice((0, 1, 2)),
                          'what': rng.choice(('unknown', 'twice'))}
        scripts.append(s)
    prog = {'bt': bt, 'size': rng.choice((1, 2, 3, 3, 5, 256)),
            'conc': rng.choice((1, 1, 2, 3, 5)),
            'retain': 0.0, 'style': rng.choice(styles), 'calls': calls,
            'scripts': scripts, 'mutate': None}
    if rng.random() < 0.3:
        prog['keys'] = [rng.choice(KEYS), rng.choice((60, 70, 130, 300, 5000))]
    if not huge and rng.random() < slow_p:
        # something takes for ages
        s = rng.choice(scripts)
        s[rng.choice(('start', 'start', 'tail'))] = rng.choice(
            (400.0, 4000.0, 40_000.0))
    retain = rng.random() < retain_p
    if retain:
        prog['retain'] = round(rng.choice((0.43, 1.19, 3.31, 12.7)) * U, 6)
    omit = []
    for name, field, p in (('max_batch_size', 'size', 0.9 if huge else 0.08),
                           ('max_concurrent_batches', 'conc', 0.08),
                           ('batch_timeout', 'bt', 0.3),
                           ('retention_timeout', 'retain', 0.1)):
        if (field not in ('bt', 'retain') or
                prog[field] == DEFAULTS[name]) and rng.random() < p:
            prog[field] = DEFAULTS[name]
            omit.append(name)
    if huge and 'max_batch_size' not in omit:
        prog['size'] = rng.choice((100, 256, 1000))
    prog['omit'] = omit
    if rng.random() < mutate_p:
        prog['mutate'] = {'at': round(rng.choice((0.0, 0.5, 1.2, 2.5)) * U, 6),
                          'size': rng.choice((1, 2, 4, 7))}
    if not huge and rng.random() < twin_p:
        # another, independent batcher
        prog['twin'] = {
            'where': rng.choice(('same', 'same', 'next')),
            'prog': generate(rng, tier, cancel_p=cancel_p, fail_p=fail_p,
                             dup_p=dup_p, retain_p=retain_p, big_p=0,
                             weird_p=weird_p, base_p=base_p,
                             twin_p=0, huge_p=0)}
    return prog


# -- the world ----------------------------------------------------------------------------

class Arg:
    """A call's argument: identifies the call that added the work."""

    def __init__(self, world, call, text):
        self.world = world
        self.call = call
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return f'<arg of #{self.call}>'


class CallRec:
    def __init__(self, n, spec, key):
        self.n = n
        self.spec = spec
        self.name = spec['key']
        self.key = key
        self.seq = self.at = None        # arrival
        self.out = None                  # ('val', x) ('exc', e) 'cancelled'
        self.end = self.ended_at = None
        self.cancelled = False           # by the harness

    def __repr__(self):
        return f'#{self.n}({self.name}@{self.at})'


class BatchRec:
    def __init__(self, n, items, seq, at):
        self.n = n
        self.items = items               # [(key, call index)]
        self.seq = seq
        self.at = at
        self.yields = []                 # (key, kind, obj, seq, at)
        self.error = None                # (exc, seq, at)
        self.end = self.ended_at = None
        self.weird = False

    @property
    def keys(self):
        return [k for k, _ in self.items]


FALSY = (None, 0, '', False, (), b'')
# how the texts of the keys are related to each other
KEYS = ('head', 'tail', 'middle', 'case', 'space', 'zeros', 'marks', 'nul',
        'words', 'copy')
WORDS = ('None', 'True', '0', '0.0', 'False', 'nan', '()', "''", 'key', '-0')


def key_text(shape, key):
    """The text used for the key k<i>: distinct for distinct i, but alike."""
    if not shape or key[:1] != 'k' or not key[1:].isdigit():
        return key
    how, size = shape
    i = int(key[1:])
    if how == 'head':
        return 'x' * size + key
    if how == 'tail':
        return key + '.' + 'x' * size
    if how == 'middle':
        return 'x' * size + key + 'x' * size
    if how == 'case':
        return ''.join(c.upper() if i >> n & 1 else c
                       for n, c in enumerate('abcdefghijkl'))
    if how == 'space':
        return ''.join(' \t'[i >> n & 1] for n in range(i.bit_length())) + 'k'
    if how == 'zeros':
        return '0' * i + '1'
    if how == 'marks':      # equal once normalised
        return ''.join('e\u0301' if i >> n & 1 else '\xe9' for n in range(12))
    if how == 'nul':
        return 'k\0' + str(i)
    if how == 'words':
        return WORDS[i] if i < len(WORDS) else f'word {i}'
    return ''.join(list(key))       # equal, not the same object


class Failing:
    """What a plain function in place of an async generator may return."""

    def __init__(self, kind, exc):
        self.kind, self.exc = kind, exc

    def __aiter__(self):
        if self.kind == 'aiter' or isinstance(self.exc, StopAsyncIteration):
            raise self.exc
        return self

    def __anext__(self):
        raise self.exc


class World:
    def __init__(self, sim, prog, given=None):
        self.sim = sim
        self.prog = prog
        self.given = given               # the decorated function, if not ours
        self.t0 = sim.time
        self.cut = False
        self.batcher = self.twin = None
        self.calls = []
        self.batches = []
        self.running = 0
        self.peak = 0
        self.viol = []
        self.size_hist = [(0.0, prog['size'])]

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    def text(self, key):
        return key_text(self.prog.get('keys'), key)

    # -- batch function ---------------------------------------------------------------

    def mine(self, items):
        return [(k, a.call if isinstance(a, Arg) and a.world is self else None)
                for k, a in items]

    def batch(self, items):
        """The batch function given to the batcher."""
        n = len(self.batches)
        s = self.prog['scripts'][n % len(self.prog['scripts'])] \
            if self.prog['scripts'] else None
        kind = s['kind'] if s is not None and s['raise'] and \
            s['raise']['at'] == 0 else None
        if kind in ('call', 'aiter', 'next'):
            # fails before there is anything to iterate: when called, when
            # asked for its iterator, or for its first element
            b = BatchRec(n, self.mine(items), None, self.sim.time)
            self.batches.append(b)
            b.seq = self.sim.event('batch', b.n, b.items)
            b.running = self.running + 1
            e = make_exc(s['raise']['exc'], n)
            b.error = (e, self.sim.event('batch.error', n, type(e).__name__),
                       self.sim.time)
            b.end, b.ended_at = b.error[1:]
            if kind == 'call':
                raise e
            return Failing(kind, e)
        gen = self.body(n, s, items)
        if s is not None and s['kind'] == 'obj':
            class It:
                def __aiter__(self):
                    return gen
            return It()
        return gen

    async def body(self, n, s, items):
        sim = self.sim
        mine = self.mine(items)
        b = BatchRec(len(self.batches), mine, None, sim.time)
        self.batches.append(b)
        b.seq = sim.event('batch', b.n, b.items)
        if s is not None and s.get('grab') and isinstance(items, list):
            # the function may do what it likes with its list
            getattr(items, s['grab'])()
        self.running += 1
        self.peak = max(self.peak, self.running)
        b.running = self.running
        if s is None:
            s = {'order': 'as', 'start': None, 'tail': None, 'durs': [None],
                 'outs': ['val'], 'raise': None, 'weird': None, 'salt': 0}
        try:
            if s['start'] is not None:
                await asyncio.sleep(s['start'])
            order = list(b.items)
            if s['order'] == 'rev':
                order.reverse()
            elif s['order'] == 'shuf':
                order.sort(key=lambda kv: hash_of(kv[0], s['salt']))
            raise_at = s['raise']['at'] if s['raise'] else None
            i = 0
            for key, call in order:
                if raise_at == i:
                    raise make_exc(s['raise']['exc'], b.n)
                if s['weird'] and s['weird']['at'] == i and i > 0 or \
                        s['weird'] and s['weird']['at'] == 0 and i == 0 and \
                        s['weird']['what'] == 'unknown':
                    b.weird = True
                    sim.count('fault.bad_yield')
                    if s['weird']['what'] == 'unknown':
                        yield 'nobody asked', 0
                    elif b.yields:
                        y = b.yields[-1]
                        yield y[0], ('again', y[0])
                d = s['durs'][i % len(s['durs'])]
                if d is not None:
                    await asyncio.sleep(d)
                out = s['outs'][i % len(s['outs'])]
                i += 1
                if out == 'omit':
                    sim.count('fault.omitted_key')
                    continue
                if out == 'exc':
                    v = make_exc(s['exc'], (b.n, key))
                    sim.count('fault.yielded_exception')
                elif out == 'bexc':
                    v = asyncio.CancelledError(b.n, key)
                elif out == 'falsy':
                    v = FALSY[(b.n + i) % len(FALSY)]
                else:
                    v = ('val', b.n, key, call)
                b.yields.append((key, 'exc' if out == 'exc' else 'val', v,
                                 sim.event('yield', b.n, key, out), sim.time))
                yield key, v
            if raise_at is not None:
                raise make_exc(s['raise']['exc'], b.n)
            if s['tail'] is not None:
                await asyncio.sleep(s['tail'])
        except GeneratorExit:
            raise
        except BaseException as e:
            b.error = (e, sim.event('batch.error', b.n, type(e).__name__),
                       sim.time)
            sim.count('fault.batch_function_raised')
            raise
        finally:
            self.running -= 1
            b.end = sim.event('batch.end', b.n)
            b.ended_at = sim.time

    # -- callers ---------------------------------------------------------------------------

    async def caller(self, c):
        sim = self.sim
        spec = c.spec
        await asyncio.sleep(spec['at'])
        for _ in range(spec['spin']):
            await asyncio.sleep(0)
        kw = {'key': self.text(spec['key'])} if spec['explicit'] else \
            {'key': None} if spec.get('none') else {}
        arg = Arg(self, c.n, f'text{c.n % 2}' if spec['explicit'] else self.text(spec['key']))

        async def call():
            c.at = sim.time
            c.seq = sim.event('call', c.n, spec['key'])
            return await self.batcher(arg, **kw)

        co = call()
        try:
            cn = spec['cancel']
            if cn and cn['how'] == 'wait_for':
                v = await asyncio.wait_for(co, cn['after'])
            else:
                v = await co
            c.out = ('val', v)
        except asyncio.CancelledError as e:
            c.out = ('exc', e)
            c.end = sim.event('answer', c.n, 'cancelled', c.cancelled)
            c.ended_at = sim.time
            raise
        except BaseException as e:
            c.out = ('exc', e)
        c.end = sim.event('answer', c.n, c.out[0], type(c.out[1]).__name__)
        c.ended_at = sim.time

    async def canceller(self, c, task):
        cn = c.spec['cancel']
        await asyncio.sleep(c.spec['at'] + cn['after'])
        for _ in range(cn['spin']):
            await asyncio.sleep(0)
        if not task.done():
            c.cancelled = True
            self.sim.event('cancel', c.n)
            self.sim.count('fault.caller_cancelled')
            task.cancel()
            if c.spec['again']:
                await asyncio.sleep(0)
                task.cancel()

    async def mutator(self):
        m = self.prog['mutate']
        await asyncio.sleep(m['at'])
        self.batcher.max_batch_size = m['size']
        self.size_hist.append((self.sim.time, m['size']))
        self.sim.count('fault.size_changed')

    def make(self):
        p = self.prog
        kw = dict(max_batch_size=p['size'], max_concurrent_batches=p['conc'],
                  batch_timeout=p['bt'], retention_timeout=p['retain'])
        if self.given is not None:
            return self.given
        for name in p.get('omit', ()):
            if kw[name] != DEFAULTS[name]:
                raise InvalidProgram('omitted option')
            del kw[name]
        style = p['style']
        if style == 0 or p['mutate']:
            return aio_mod.AsyncBackgroundBatcher(self.batch, **kw)
        if style == 1:
            return aio_mod.async_background_batcher(self.batch, **kw)
        if style == 2:
            return aio_mod.async_background_batcher(**kw)(self.batch)

        async def plain(items):
            async for x in self.batch(items):
                yield x
        if style == 3:
            return aio_mod.async_background_batcher(**kw)(plain)

        async def other(items):
            raise AssertionError('not this function')
            yield
        deco = aio_mod.async_background_batcher(**kw)
        deco(other)
        f = deco(plain)
        deco(other)
        return f

    def run(self):
        sim, twin = self.sim, self.twin
        for p in (self.prog,) + ((twin.prog,) if twin else ()):
            if p['size'] < 1 or p['conc'] < 1 or p['bt'] < 0:
                raise InvalidProgram('bad option')
            if p['mutate'] and p['mutate']['size'] < 1:
                raise InvalidProgram('bad option')
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        if twin is not None and self.prog['twin']['where'] == 'same':
            async def both():
                await asyncio.gather(self.main(loop), twin.main(loop))
            loop.run_until_complete(both())
        else:
            loop.run_until_complete(self.main(loop))
        shutdown(sim, loop)
        if twin is not None and twin.batcher is None:
            twin.run()

    async def main(self, loop):
        sim, prog = self.sim, self.prog
        self.t0 = sim.time
        self.batcher = self.make()
        tasks, extra = [], []
        for i, spec in enumerate(prog['calls']):
            c = CallRec(i, spec, self.text(spec['key']))
            self.calls.append(c)
            t = loop.create_task(self.caller(c))
            tasks.append(t)
            if spec['cancel'] and spec['cancel']['how'] == 'task':
                extra.append(loop.create_task(self.canceller(c, t)))
        if prog['mutate']:
            extra.append(loop.create_task(self.mutator()))
        cut = prog.get('cut')
        if tasks:
            await asyncio.wait(tasks, timeout=1_000_000 if cut is None else cut)
        if cut is not None:
            # the loop ends here, whatever is still pending
            self.cut = True
            for c in self.calls:
                c.cancelled |= c.end is None
            sim.event('cut')
            sim.count('fault.loop_ended_early')
            return
        if extra:
            await asyncio.gather(*extra, return_exceptions=True)
        # let running batches end
        for _ in range(50):
            if not self.running:
                break
            await asyncio.sleep(prog['bt'] * 5 + 0.1)
        if self.running and any(
                (s.get(f) or 0) >= 400 for s in prog['scripts']
                for f in ('start', 'tail')):
            await asyncio.sleep(400_000)
        self.late = CallRec(len(prog['calls']), {
            'key': 'late', 'explicit': True, 'at': 0, 'spin': 0,
            'cancel': None}, 'late')
        self.calls.append(self.late)
        await asyncio.wait([loop.create_task(self.caller(self.late))],
                           timeout=1_000_000)
        sim.event('over')


def hash_of(key, salt):
    import hashlib
    return hashlib.md5(f'{key}|{salt}'.encode()).digest()


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    if prog.get('twin'):
        w.twin = World(sim, prog['twin']['prog'])
    w.run()


def judged(w, judge):
    """What `judge` says about this world and its twin."""
    viol = judge(w)
    if w.twin is not None:
        viol = viol + [(k, f'second batcher: {d}')
                       for k, d in judge(w.twin)]
    return viol


# -- oracles --------------------------------------------------------------------------------

def own_outcome(w):
    """Every call is answered with what was produced for its own key."""
    viol = []
    R = w.prog['retain']
    for c in w.calls:
        if c.seq is None:
            continue
        if c.cancelled:
            continue
        cn = c.spec['cancel']
        if c.end is None:
            viol.append(('hang', f'call {c} is never answered'))
            continue
        kind, obj = c.out
        if kind == 'exc' and cn and cn['how'] == 'wait_for' and \
                isinstance(obj, asyncio.TimeoutError) and \
                c.ended_at >= c.at + cn['after'] - EPS:
            continue
        why = None
        for b in w.batches:
            if c.key not in b.keys or b.seq > c.end:
                continue
            mine = [y for y in b.yields if y[0] == c.key]
            for key, k, o, seq, at in mine:
                if at < c.at - R - EPS or seq > c.end:
                    continue
                if kind == k and obj is o:
                    why = 'yielded'
                elif kind == 'exc' and k == 'exc' and isinstance(
                        o, StopIteration) and isinstance(obj, RuntimeError):
                    why = 'yielded (StopIteration)'
                elif kind == 'val' and b.weird and isinstance(obj, tuple) \
                        and obj[:1] == ('again',) and obj[1] == c.key:
                    why = 'yielded twice'
            if kind != 'exc' or mine:
                continue
            if b.error is not None and b.error[2] >= c.at - R - EPS and (
                    obj is b.error[0] or (type(obj) is type(b.error[0])
                                          and obj.args == b.error[0].args)
                    or (isinstance(b.error[0], (StopIteration,
                                                StopAsyncIteration))
                        and isinstance(obj, RuntimeError))
                    or (isinstance(obj, asyncio.CancelledError) and
                        isinstance(b.error[0], asyncio.CancelledError))):
                why = 'batch error'
            elif b.end is not None and b.ended_at >= c.at - R - EPS and \
                    b.error is None and isinstance(obj, Exception) and not \
                    hasattr(obj, 'tag'):
                why = 'missing'
            elif b.weird and isinstance(obj, Exception) and not \
                    hasattr(obj, 'tag'):
                why = 'bad yield'
        if why is None:
            viol.append(('wrong-outcome', f'call {c} got {kind} {obj!r}; '
                         f'batches with its key: ' + '; '.join(
                             f'{b.n}: yields '
                             f'{[y[1:3] for y in b.yields if y[0] == c.key]} '
                             f'error {b.error and b.error[0]!r}'
                             for b in w.batches if c.key in b.keys)))
    return viol


def nontrivial(w):
    return len(w.batches) > 1 and len(w.calls) > 2
