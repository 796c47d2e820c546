"""
The world of C03, C07 and C08: one ``buffer_until_timeout`` wrapper on a loop,
producers on the loop's thread and on foreign threads, waiters, shutdown.
"""

import asyncio
import gc
import time

from sim import target
from sim.runner import InvalidProgram

from .common import HarnessBase, make_exc, pick, run_alone, shutdown

aio_mod = None

REAL = ['aiuti.asyncio.BufferAsyncCalls, buffer_until_timeout, to_async_iter, '
        'ensure_aw, DaemonTask (unmodified source, every line a switch point)',
        'asyncio loops, tasks, Queue, Event, wait_for; ThreadPoolExecutor']
STUB = ['threading locks (simulated blocking), queue.SimpleQueue',
        'selector and self-wakeup of the loops', 'clocks and sleep',
        'the wrapped function and all producers (harness)']
ASSUMPTIONS = ['preemption at source lines of aiuti and at lock, queue, sleep '
               'and loop-wakeup operations, not inside a line',
               'submitted values are hashable; the wrapped function and the '
               'producers respond to cancellation; no producer is endless']
SIM = {'max_steps': 120_000, 'max_time': 200_000.0}
FOCUS = ('BufferAsyncCalls',)
EPS = 1e-6

FALSY = [0, '', None, (), frozenset()]
ODD = ['abc', (1, 2), ValueError('v'), Ellipsis, range(3), int, b'xy', 2.5,
       asyncio.CancelledError('c'), frozenset({3}), NotImplemented]
EXCS = ('ValueError', 'RuntimeError', 'KeyError', 'HarnessExc', 'TimeoutError',
        'CancelledError', 'HarnessBase', 'CancelSub', 'LookupError')
FALSE_EXCS = EXCS + ('FalsyExc',)


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')


# -- generation -------------------------------------------------------------------------

def gen_submit(rng, T, ids, *, immediate, fail_p, dup_p=0.0):
    def val():
        if dup_p and ids['used'] and rng.random() < dup_p:
            return rng.choice(ids['used'])
        ids['n'] += 1
        v = f"v{ids['n']}"
        ids['used'].append(v)
        return v
    kind = pick(rng, (5, 'call'), (3, 'map'), (0 if immediate else 2, 'await'),
                (0 if immediate else 3, 'amap'))
    s = {'kind': kind}
    if kind == 'call':
        s['vals'] = [val()]
        return s
    n = 1 if kind == 'await' else pick(rng, (1, 0), (3, 1), (3, 2), (2, 4))
    s['vals'] = [val() for _ in range(n)]
    s['src'] = rng.choice(('list', 'range', 'iter', 'gen', 'gen')) \
        if kind == 'map' else rng.choice(('gen', 'gen', 'obj'))
    if kind == 'await':
        s['src'] = rng.choice(('coro', 'coro', 'future', 'task', 'obj'))
    slow = not immediate and rng.random() < 0.5
    s['delays'] = [round(rng.choice((0.0, 0.3, 0.8, 1.3, 2.6)) * T, 4)
                   if slow and rng.random() < 0.6 else None
                   for _ in range(n + 1)]
    s['fail'] = None
    if rng.random() < fail_p and not (kind == 'map' and
                                      s['src'] in ('list', 'range', 'iter')):
        s['fail'] = rng.choice(EXCS if kind != 'map' else EXCS[:5] + (
            'HarnessBase',))
    return s


def gen_func(rng, T, n, fail_p, excs=FALSE_EXCS):
    out = []
    for _ in range(n):
        out.append({'dur': rng.choice((None, None, 0, round(0.3 * T, 4),
                                       round(0.9 * T, 4), round(2.2 * T, 4))),
                    'out': rng.choice(excs) if rng.random() < fail_p else 'ok',
                    'mutate': pick(rng, (6, None), (1, 'pop'), (1, 'clear')),
                    'on_cancel': pick(rng, (5, None), (1, 'finish'),
                                      (1, 'slow'))})
    return out


def huge(rng, prog, ids):
    """One actor submits a lot."""
    n = rng.choice((257, 300, 513, 1100))
    kind = rng.choice(('map', 'amap', 'calls'))
    if kind == 'calls':
        n = min(n, 300)
    vals = [f"v{ids['n'] + 1 + i}" for i in range(n)]
    ids['n'] += n
    ops = prog['actors'][0]['ops']
    at = rng.randrange(len(ops) + 1)
    if kind == 'calls':
        ops[at:at] = [{'op': 'submit', 'kind': 'call', 'vals': [v],
                       'delays': [None, None], 'fail': None, 'gap': None}
                      for v in vals]
    else:
        ops.insert(at, {'op': 'submit', 'kind': kind, 'vals': vals,
                        'src': 'gen', 'delays': [None] * (n + 1),
                        'fail': None, 'gap': None})


GAPS = (0.0, 0.0, 0.1, 0.37, 0.37, 0.71, 0.93, 1.13, 1.6, 2.7)


def generate(rng, tier, *, fail_p=0.3, immediate=False, foreign_p=0.4,
             wait_p=0.35, shutdown_p=0.0, dup_p=0.0, no_flush=False,
             prod_fail_p=0.25, huge_p=0.004):
    T = rng.choice((0.1, 0.1, 0.1, 1, 0.013, 7.5, 90))
    if not immediate and rng.random() < 0.05:
        T = 0
    U = T or 0.1
    ids = {'n': 0, 'used': []}
    fail_p = rng.choice((0, 0, fail_p, fail_p * 1.7))
    pf = rng.choice((0, prod_fail_p, prod_fail_p * 1.6))
    wait_p = rng.choice((0, wait_p, wait_p * 1.5))
    actors = []
    nfor0 = nfor = rng.choice((1, 1, 2)) if rng.random() < foreign_p else 0
    crowd = rng.random() < 0.02
    for a in range(rng.randrange(12, 30) if crowd else
                   1 + rng.randrange(2) + nfor):
        foreign = a > 0 and nfor > 0
        if foreign:
            nfor -= 1
        ops = []
        for _ in range(1 if crowd else
                       pick(rng, (3, 1), (3, 2), (3, 4), (2, 6))):
            if rng.random() < wait_p:
                op = {'op': 'wait', 'cancel': rng.random() < 0.65
                      and not no_flush,
                      'timeout': rng.choice((None, None, None,
                                             round(0.5 * U, 4))),
                      'where': 'anywhere' if foreign else
                      rng.choice(('own', 'own', 'anywhere')),
                      'task': rng.random() < 0.4}
            else:
                op = {'op': 'submit', **gen_submit(
                    rng, U, ids, immediate=immediate, fail_p=pf,
                    dup_p=dup_p)}
            op['gap'] = round(rng.choice(GAPS) * U, 5)
            if rng.random() < 0.3:
                op['gap'] = None            # no switch at all before it
            ops.append(op)
        actors.append({'foreign': foreign, 'loop': foreign and
                       rng.random() < 0.5, 'ops': ops,
                       'start': round(rng.choice(GAPS) * U, 5)})
    prog = {'T': T, 'actors': actors,
            'func': gen_func(rng, U, 5, fail_p),
            'early': rng.random() < 0.3, 'style': rng.randrange(3),
            'final': rng.choice(('wait', 'sleep', 'idle', 'idle')),
            'falsy': pick(rng, (80, False), (13, True), (7, 'odd')),
            'shutdown': None}
    stubborn = rng.randrange(8, 40 if U <= 1 else 10)
    if U <= 10 and rng.random() < 0.03:
        # a function that fails for a long time
        prog['func'] = gen_func(rng, U, stubborn, 0.97)
    if rng.random() < huge_p:
        huge(rng, prog, ids)

    def more(n, imm=True):
        out = []
        for _ in range(n):
            o = {**gen_submit(rng, U, ids, immediate=imm, fail_p=0 if imm
                              else pf)}
            if imm:
                o['vals'] = o['vals'] or [f"v{800 + rng.randrange(99)}"]
                o['delays'] = [None] * (len(o['vals']) + 1)
            out.append(o)
        return out
    if rng.random() < 0.12:
        # the function itself submits
        for f in prog['func']:
            if rng.random() < 0.5:
                f['resub'] = more(1)
    if prog['early'] and rng.random() < 0.4:
        prog['pre'] = more(rng.randrange(1, 4), immediate)
    if not no_flush and not shutdown_p and rng.random() < 0.1:
        # the loop stops for a while and is run again
        prog['late'] = {'pause': round(rng.choice(GAPS) * U, 5),
                        'subs': more(rng.randrange(4), False),
                        'cancel': rng.random() < 0.65}
    if rng.random() < 0.1:
        prog['twin'] = {'T': round(rng.choice((0.4, 1, 1, 2.3)) * U, 5),
                        'gaps': [round(rng.choice(GAPS) * U, 5) for _ in
                                 range(rng.randrange(1, 6))]}
    if prog['final'] == 'sleep' and 'late' not in prog and rng.random() < 0.3:
        # nobody keeps the wrapper once everything was submitted
        prog['drop'] = True
        if rng.random() < 0.5:
            rng.choice(prog['func'])['dur'] = round(
                rng.choice((1.7, 3.3, 5.1)) * U, 5)
    if not immediate and not nfor0 and not shutdown_p and rng.random() < 0.02:
        # a producer takes for ages
        subs = [o for a in actors for o in a['ops'] if o.get('delays')]
        if subs:
            s = rng.choice(subs)
            s['delays'][rng.randrange(len(s['delays']))] = rng.choice(
                (300.0, 4000.0, 15_000.0))
    if no_flush:
        prog['final'] = 'sleep'
    if rng.random() < shutdown_p:
        prog['shutdown'] = {
            'at': round(rng.choice((0.0, 0.2, 0.5, 0.9, 1.1, 1.6, 2.4, 4)) * U,
                        5),
            'what': rng.choice(('all', 'all', 'background')),
            'again': rng.random() < 0.2}
    return prog


# -- the world ---------------------------------------------------------------------------

class Submission:
    def __init__(self, w, actor, spec, foreign):
        self.actor = actor
        self.kind = spec['kind']
        self.foreign = foreign
        vals = [w.value(v) for v in spec['vals']]
        self.must = list(vals)            # what has to be delivered
        self.may = list(vals)
        if spec['kind'] == 'await' and spec.get('fail'):
            self.must, self.may = [], []
        if spec['kind'] in ('call', 'await') and len(vals) != 1:
            raise InvalidProgram('one value expected')
        self.seq = None                   # when it was handed over
        self.at = None
        self.spec = spec

    def __repr__(self):
        return f'{self.actor}:{self.kind}{self.must}'


class Call:
    def __init__(self, n, args, seq, at):
        self.n = n
        self.args = args
        self.seq = seq
        self.at = at
        self.end = self.ended_at = None
        self.ok = None


class Wait:
    def __init__(self, actor, spec, foreign, seq, at):
        self.actor = actor
        self.spec = spec
        self.foreign = foreign
        self.seq = seq
        self.at = at
        self.out = None
        self.end = self.ended_at = None


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.subs = []
        self.calls = []
        self.waits = []
        self.running = 0
        self.viol = []
        self.stopping = False
        self.settled = float('inf')
        self.down = None                 # (seq, time) of the shutdown
        self.owed = sum(1 for f in prog['func'] if f['out'] != 'ok')

    def value(self, name):
        n = int(name[1:])
        odd = ODD if self.prog['falsy'] == 'odd' else \
            FALSY if self.prog['falsy'] else ()
        if n <= len(odd):
            return odd[n - 1]
        return n + 10 if odd else n

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    # -- the wrapped function --------------------------------------------------------

    async def func(self, args):
        sim = self.sim
        n = len(self.calls)
        spec = self.prog['func'][n] if n < len(self.prog['func']) else \
            {'dur': None, 'out': 'ok', 'mutate': None, 'on_cancel': None}
        try:
            got = set(args)
        except TypeError:
            got = {repr(args)}
        c = Call(n, got, None, sim.time)
        self.calls.append(c)
        c.seq = sim.event('func', n, sorted(map(repr, got)))
        if self.running:
            self.flag('overlap', f'call {n} starts while {self.running} '
                      f'other(s) run')
        if not got:
            self.flag('empty-call', f'call {n} got an empty set')
        self.running += 1
        try:
            for o in spec.get('resub', ()):
                self.submit('func', o, False)
            if spec['mutate'] == 'clear' and isinstance(args, set):
                args.clear()
            if spec['dur'] is not None:
                try:
                    await asyncio.sleep(spec['dur'])
                except asyncio.CancelledError:
                    if spec['on_cancel'] == 'slow':
                        await asyncio.sleep(0.05)
                        raise
                    if spec['on_cancel'] != 'finish':
                        raise
            if spec['mutate'] == 'pop' and isinstance(args, set):
                while args:
                    args.pop()
                    if spec['out'] != 'ok':
                        break
            if spec['out'] != 'ok':
                raise make_exc(spec['out'], n)
            c.ok = True
        except BaseException:
            c.ok = False
            raise
        finally:
            self.running -= 1
            c.end = sim.event('func.end', n, c.ok)
            c.ended_at = sim.time

    # -- producers -------------------------------------------------------------------

    def sync_source(self, sub, spec):
        vals = sub.may
        if spec['src'] == 'list':
            return list(vals)
        if spec['src'] == 'range' and vals and all(
                isinstance(v, int) for v in vals) and \
                vals == list(range(vals[0], vals[0] + len(vals))):
            return range(vals[0], vals[0] + len(vals))
        if spec['src'] in ('iter', 'range'):
            return iter(list(vals))

        def gen():
            for v, d in zip(vals, spec['delays']):
                if d is not None:
                    time.sleep(d)
                yield v
            if spec['fail']:
                raise make_exc(spec['fail'], 'producer')
        return gen()

    def async_source(self, sub, spec):
        async def agen():
            for v, d in zip(sub.may, spec['delays']):
                if d is not None:
                    await asyncio.sleep(d)
                yield v
            if spec['delays'][-1] is not None:
                await asyncio.sleep(spec['delays'][-1])
            if spec['fail']:
                raise make_exc(spec['fail'], 'producer')
        if spec['src'] == 'gen':
            return agen()

        class Obj:
            def __aiter__(self):
                return agen()
        return Obj()

    def awaitable(self, sub, spec, loop, foreign):
        v = sub.may[0] if sub.may else None
        d = spec['delays'][0]

        async def coro():
            if d is not None:
                await asyncio.sleep(d)
            if spec['fail']:
                raise make_exc(spec['fail'], 'producer')
            return v

        if spec['src'] == 'coro' or (foreign and spec['src'] != 'obj'):
            return coro()
        if spec['src'] == 'task':
            return loop.create_task(coro())
        if spec['src'] == 'future':
            fut = loop.create_future()

            def done():
                if fut.done():
                    return
                if spec['fail']:
                    if spec['fail'] in ('CancelledError', 'CancelSub'):
                        fut.cancel()
                    else:
                        fut.set_exception(make_exc(spec['fail'], 'producer'))
                else:
                    fut.set_result(v)
            loop.call_later(d or 0, done)
            return fut

        class Obj:
            def __await__(self):
                return coro().__await__()
        return Obj()

    def submit(self, actor, spec, foreign):
        sim = self.sim
        sub = Submission(self, actor, spec, foreign)
        b = self.buffer
        kind = spec['kind']
        if kind == 'call':
            arg = sub.may[0]
            fn = b
        elif kind == 'map':
            arg, fn = self.sync_source(sub, spec), b.map
        elif kind == 'amap':
            arg, fn = self.async_source(sub, spec), b.amap
        else:
            arg, fn = self.awaitable(sub, spec, self.loop, foreign), b.await_
        sub.begin = sim.event('submit', actor, kind, repr(sub.may))
        self.subs.append(sub)
        sub.at = sim.time
        try:
            fn(arg)
        except RuntimeError:
            if not self.stopping:
                raise
            sim.event('refused', actor)
            return
        sub.seq = sim.event('submitted', actor)
        sub.done_at = sim.time

    # -- waiting ---------------------------------------------------------------------

    async def wait(self, actor, spec, foreign):
        sim = self.sim
        w = Wait(actor, spec, foreign, None, sim.time)
        self.waits.append(w)
        kw = {'cancel': spec['cancel']}
        w.seq = sim.event('wait', actor, spec['cancel'])
        co = self.buffer.wait_from_anywhere(**kw) \
            if spec['where'] == 'anywhere' else self.buffer.wait(**kw)
        try:
            if spec['timeout'] is not None:
                await asyncio.wait_for(co, spec['timeout'])
            else:
                await co
            w.out = 'ok'
        except asyncio.CancelledError:
            w.out = 'cancelled'
            raise
        except asyncio.TimeoutError:
            w.out = 'timeout'
            if spec['timeout'] is None:
                self.flag('wait-raised', 'TimeoutError')
        except RuntimeError as e:
            w.out = 'raised'
            if not self.stopping:
                self.flag('wait-raised', repr(e))
        finally:
            w.end = sim.event('wait.end', actor, w.out)
            w.ended_at = sim.time
        if w.out == 'ok':
            self.barrier(w)

    def barrier(self, w):
        """Everything submitted before `w` has been processed successfully."""
        for s in self.subs:
            if s.seq is None or s.seq > w.seq:
                continue
            if s.foreign and s.actor != w.actor:
                continue
            for v in s.must:
                if not any(c.ok and c.seq > s.begin and has(c.args, v)
                           for c in self.calls):
                    self.flag('barrier', f'wait() of {w.actor} (called at '
                              f'{w.at:.4f}) returned at {w.ended_at:.4f} but '
                              f'{v!r} of {s} has not been processed')
                    return

    # -- actors ----------------------------------------------------------------------

    async def own_actor(self, name, spec):
        await asyncio.sleep(spec['start'])
        extra = []
        for op in spec['ops']:
            if op['gap'] is not None:
                await asyncio.sleep(op['gap'])
            if op['op'] == 'submit':
                self.submit(name, op, False)
            elif op['task']:
                extra.append(asyncio.create_task(self.wait(name, op, False)))
            else:
                await self.wait(name, op, False)
        for t in extra:
            await t

    def foreign_actor(self, name, spec):
        sim = self.sim
        if spec['loop']:
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)

            async def main():
                await asyncio.sleep(spec['start'])
                for op in spec['ops']:
                    if self.stopping:
                        return
                    if op['gap'] is not None:
                        await asyncio.sleep(op['gap'])
                    if self.stopping:
                        return
                    if op['op'] == 'submit':
                        self.submit(name, op, True)
                    else:
                        await self.wait(name, op, True)
            try:
                loop.run_until_complete(main())
            except asyncio.CancelledError:
                pass
            loop.close()
            return
        sim.sleep(spec['start'])
        for op in spec['ops']:
            if op['gap'] is not None:
                sim.sleep(op['gap'])
            if self.stopping:
                return
            if op['op'] == 'submit':
                self.submit(name, op, True)
            else:
                async def main(op=op):
                    await self.wait(name, op, True)
                loop = asyncio.new_event_loop()
                asyncio.set_event_loop(loop)
                try:
                    loop.run_until_complete(main())
                except asyncio.CancelledError:
                    pass
                loop.close()

    # -- the whole run ---------------------------------------------------------------

    def settle_time(self):
        """Virtual seconds after which everything must have been delivered."""
        T = self.prog['T']
        total = 20.0 + 2 * T
        for s in [*self.prog.get('pre', ())] + \
                [*self.prog.get('late', {}).get('subs', ())]:
            total += T + sum(d or 0 for d in s.get('delays', ()))
        for f in self.prog['func']:
            total += (f['dur'] or 0) + 2 * T
        for a in self.prog['actors']:
            total += a['start']
            for op in a['ops']:
                total += (op['gap'] or 0) + T
                total += sum(d or 0 for d in op.get('delays', ()))
        return total

    def make_buffer(self):
        before = set(map(id, asyncio.all_tasks(self.loop)))
        deco = aio_mod.buffer_until_timeout
        style, T = self.prog['style'], self.prog['T']

        async def wrapped(args):
            return await self.func(args)
        kw = {'timeout': T}
        if self.prog.get('omit'):
            if T != 1:
                raise InvalidProgram('omitted option')
            kw = {}
        if style == 0:
            b = deco(wrapped, **kw)
        elif style == 1:
            b = deco(**kw)(wrapped)
        elif style == 3:
            b = aio_mod.BufferAsyncCalls(wrapped, **kw)
        elif style == 4:
            d = deco(**kw)
            b = d(self.func)
            assert d(wrapped) is not b
        else:
            b = deco(**kw)(self.func)
        self.buffer = b
        self.background = [t for t in asyncio.all_tasks(self.loop)
                           if id(t) not in before]

    def run(self):
        sim, prog = self.sim, self.prog
        if prog['T'] < 0:
            raise InvalidProgram('negative timeout')
        loop = self.loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        if prog['early']:
            self.make_buffer()
        elif prog.get('pre'):
            raise InvalidProgram('submissions before the buffer exists')
        foreign = []

        async def main():
            if not prog['early']:
                self.make_buffer()
            tasks = []
            if prog.get('twin'):
                tasks.append(asyncio.create_task(self.twin(prog['twin'])))
            for i, a in enumerate(prog['actors']):
                name = f'A{i}'
                if a['foreign']:
                    foreign.append(sim.spawn(self.foreign_actor, name=name,
                                             args=(name, a)))
                else:
                    tasks.append(asyncio.create_task(self.own_actor(name, a)))
            down = prog['shutdown']
            if down is not None:
                await asyncio.sleep(down['at'])
                self.down = (sim.event('shutdown', down['what']), sim.time)
                self.stopping = True
                if down['what'] == 'all':
                    return
                for t in self.background:
                    t.cancel()
                await self.background_ends()
                return
            if tasks:
                await asyncio.gather(*tasks)
            if prog.get('late'):
                while any(t.state < 2 for t in foreign):
                    await asyncio.sleep(0.25)
                return
            if prog['final'] == 'idle':
                # nothing of ours wakes the loop any more
                fut = loop.create_future()
                sim.spawn(self.controller, name='ctl',
                          args=(loop, foreign, fut))
                await fut
                self.stopping = True
                self.down = (sim.event('shutdown', 'end'), sim.time)
                return
            while any(t.state < 2 for t in foreign):
                await asyncio.sleep(0.25)
            if prog.get('drop') and not any(
                    f.get('resub') for f in prog['func']):
                if prog['final'] != 'sleep':
                    raise InvalidProgram('drop')
                del tasks
                self.buffer = None
                self.background = []
                sim.count('fault.wrapper_dropped')
                for _ in range(3):
                    gc.collect()
                    await asyncio.sleep(prog['T'] * 0.4)
            if prog['final'] == 'wait':
                await self.wait('main', {'cancel': True, 'timeout': None,
                                         'where': 'own'}, False)
            if prog['final'] != 'wait' or any(
                    f.get('resub') for f in prog['func']):
                # (what the function submitted itself needs its time)
                await asyncio.sleep(self.settle_time())
            self.stopping = True
            self.down = (sim.event('shutdown', 'end'), sim.time)

        for o in prog.get('pre', ()):
            self.submit('main', o, False)
        run_alone(sim, loop, main)
        late = prog.get('late')
        if late and not self.stopping:
            # nothing runs the loop for a while
            sim.event('loop paused')
            sim.sleep(late['pause'])
            for o in late['subs']:
                self.submit('main', o, False)
            sim.event('loop resumed')
            run_alone(sim, loop, lambda: self.wait(
                'main', {'cancel': late['cancel'], 'timeout': None,
                         'where': 'own'}, False))
            run_alone(sim, loop, lambda: asyncio.sleep(self.settle_time()))
            self.stopping = True
            self.down = (sim.event('shutdown', 'end'), sim.time)
        sim.event('stopping')
        self.close_down(loop)
        sim.event('stopped')
        for t in foreign:
            # their wait may never be answered once the loop is gone
            if not sim.join(t, 30):
                sim.event('foreign thread left behind', t.name)

    async def twin(self, spec):
        """A second wrapper on the same loop, with inputs of its own."""
        seen, want = [], []

        async def other(args):
            self.sim.event('other func', sorted(map(repr, args)))
            seen.extend(args)
        b = aio_mod.buffer_until_timeout(other, timeout=spec['T'])
        for i, gap in enumerate(spec['gaps']):
            await asyncio.sleep(gap)
            if self.stopping:
                return
            want.append(f'w{i}')
            b(want[-1])
        await b.wait(cancel=len(spec['gaps']) % 2 == 0)
        if self.stopping:
            return
        miss = [v for v in want if v not in seen]
        if miss:
            self.flag('barrier', f'wait() of the second wrapper returned but '
                      f'{miss} has not been processed')
            await asyncio.sleep(self.settle_time())
            miss = [v for v in want if v not in seen]
            if miss:
                self.flag('lost', f'{miss} of the second wrapper')
        if any(v not in want for v in seen):
            self.flag('unknown-arg', f'the second wrapper received {seen}, '
                      f'not {want}')
        if len(set(seen)) != len(seen):
            self.flag('delivered-twice', f'the second wrapper received {seen}')

    def controller(self, loop, foreign, fut):
        sim = self.sim
        for t in foreign:
            sim.join(t)
        sim.sleep(self.settle_time())
        self.settled = sim.event('settled')
        loop.call_soon_threadsafe(fut.set_result, None)

    async def background_ends(self):
        for _ in range(400):
            if all(t.done() for t in self.background):
                return
            await asyncio.sleep(0.25 + self.prog['T'] / 20)
        self.flag('background-alive', 'the background task is still running '
                  '100 s after it was cancelled')

    def close_down(self, loop):
        shutdown(self.sim, loop)


def has(args, v):
    return any(a == v and type(a) is type(v) for a in args)


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


# -- oracles -------------------------------------------------------------------------------

def delivered(w):
    """C03's judgement over the recorded history."""
    viol = [v for v in w.viol if v[0] in ('lost', 'unknown-arg',
                                          'delivered-twice')]
    ok = [c for c in w.calls if c.ok]
    may = [v for s in w.subs for v in s.may]
    for c in w.calls:
        for a in c.args:
            if not has(may, a):
                viol.append(('unknown-arg', f'call {c.n} received {a!r}, '
                             f'which nobody submitted'))
            elif not any(has(s.may, a) and s.begin < c.seq for s in w.subs):
                viol.append(('unknown-arg', f'call {c.n} received {a!r} '
                             f'before it was submitted'))
    full = w.prog['shutdown'] is None
    for s in w.subs:
        for v in s.must:
            n = [c for c in ok if has(c.args, v)]
            end = w.settled if s.begin < w.settled else float('inf')
            if full and not any(s.begin < c.seq < end for c in n):
                viol.append(('lost', f'{v!r} of {s} never reached a '
                             f'successful call'))
    if dups(w):
        return viol
    for s in w.subs:
        if s.foreign:
            continue
        for v in s.may:
            n = [c.n for c in ok if has(c.args, v)]
            if len(n) > 1:
                viol.append(('delivered-twice', f'{v!r} of {s} was delivered '
                             f'to successful calls {n}'))
    return viol


def dups(w):
    vals = [repr(v) for s in w.subs for v in s.may]
    return len(set(vals)) != len(vals)


def nontrivial(w):
    return bool(w.calls) and len(w.subs) > 1
