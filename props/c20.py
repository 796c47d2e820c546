"""C20: gather_excs reports exactly the failures, in input order."""

import asyncio

from sim import target
from sim.runner import InvalidProgram

from .common import make_exc, pick, shutdown
from .common import EXCS as _EXCS

ID = 'C20'
THREADS = False
BUDGET = {'quick': 12000, 'thorough': 400000}
SIM = {'max_steps': 200_000, 'max_time': 10_000_000.0}
FOCUS = ('gather_excs', 'raise_first_exc')
RULE = ('seeded lists of 0..8 awaitables (coroutines, tasks, futures, custom '
        'awaitables, one given twice, equal and unhashable ones) returning '
        'or raising members of an '
        'exception hierarchy after seeded delays or after another one has '
        'finished, some cancelled from outside '
        'while running; the filter ranges over the hierarchy; consumers that '
        'stop early.  Judged: the yielded exceptions by identity and order, '
        'what had finished at the first yield, who was cancelled.  '
        'Non-trivial: two failures whose finishing order is not their input '
        'order')
REAL = ['aiuti.asyncio.gather_excs, raise_first_exc (unmodified source)',
        'asyncio loop, tasks, gather']
STUB = ['selector and clock of the loop', 'the awaitables (harness)']
ASSUMPTIONS = ['one event loop: finishing order follows seeded delays and '
               'asyncio\'s FIFO ready queue',
               'KeyboardInterrupt and SystemExit are not raised by awaitables: '
               'asyncio lets them escape from the loop itself']

aio_mod = None


class Base(Exception):
    pass


class Sub(Base):
    pass


class SubSub(Sub):
    pass


class Other(Exception):
    pass


class BareBase(BaseException):
    pass


_EXCS.update(Base=Base, Sub=Sub, SubSub=SubSub, Other=Other, BareBase=BareBase)
KINDS = ('Base', 'Sub', 'SubSub', 'Other', 'BareBase', 'CancelledError',
         'ValueError', 'FalsyExc')
ONLY = {'BaseException': BaseException, 'Exception': Exception, 'Base': Base,
        'Sub': Sub, 'SubSub': SubSub, 'Other': Other, 'BareBase': BareBase,
        'CancelledError': asyncio.CancelledError, 'LookupError': LookupError,
        'default': BaseException}


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')


def generate(rng, tier):
    n = rng.choice((0, 1, 2, 2, 3, 3, 4, 5, 5, 8))
    if rng.random() < 0.006:
        n = rng.choice((40, 130, 300))
    delays = rng.choice(((0.0,), (None, 0.0), (None, 0.0, 1.0, 2.0, 3.0, 4.0)))
    few = rng.choice((KINDS, ('Base', 'Sub', 'SubSub'), ('Sub', 'Other')))
    aws = []
    for i in range(n):
        aws.append({
            'delay': rng.choice(delays), 'spin': rng.choice((0, 0, 0, 1, 3)),
            'kind': pick(rng, (5, 'coro'), (2, 'task'), (1, 'future'),
                         (1, 'obj'), (.4, 'equal'), (.2, 'unhashable')),
            'out': pick(rng, (3, 'val'), (1, 'none'), (1.5, 'retexc'),
                        (6, 'raise')),
            'exc': rng.choice(few),
            'again': rng.random() < 0.05,
            'same': rng.random() < 0.1,
            'cancel': rng.choice((0.0, 0.5, 1.5)) if rng.random() < 0.08
            else None})
    if n > 1 and rng.random() < (0.4 if n > 8 else 0.06):
        # some finish only after a later one has, perhaps in a chain
        k = rng.choice((1, 1, 2, n - 1, n))
        for i in range(n - 1):
            if k >= n - 1 or rng.random() < 0.4:
                aws[i]['after'] = min(n - 1, i + k)
    if rng.random() < 0.02:         # something takes for ages
        scale = rng.choice((100, 2000, 90_000))
        for a in aws:
            for f in ('delay', 'cancel'):
                a[f] = a[f] and a[f] * scale
    return {'aws': aws, 'only': rng.choice(tuple(ONLY)),
            'mode': pick(rng, (5, 'all'), (1, 'stop'), (3, 'first')),
            'kw': rng.random() < 0.2,
            'as': rng.choice(('list', 'tuple', 'gen', 'iter')),
            'before': rng.choice((None, None, None, 0.0, 1.5, 9.0)),
            'pause': rng.choice((None, None, 0.0, 0.5))}


class Obj:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Equal(Obj):
    """Equal to every other one, and still another awaitable."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 1


class Unhashable(Obj):
    __hash__ = None


CLASSES = {'obj': Obj, 'equal': Equal, 'unhashable': Unhashable}


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.finished = []           # indices in finishing order
        self.started = set()
        self.raised = {}             # index -> exception
        self.same = {}
        self.hit = set()             # cancelled by the harness
        self.bad_cancel = []
        self.got = []
        self.first_state = None
        self.out = None

    def finish(self, i):
        self.finished.append(i)
        self.ended[i].set()

    async def body(self, i, a):
        sim = self.sim
        self.started.add(i)
        try:
            for _ in range(a['spin']):
                await asyncio.sleep(0)
            if a['delay'] is not None:
                await asyncio.sleep(a['delay'])
            if a.get('after') is not None:
                await self.ended[a['after']].wait()
        except asyncio.CancelledError as e:
            sim.event('cancelled', i)
            if i not in self.hit:
                self.bad_cancel.append(i)
            self.raised[i] = e
            self.finish(i)
            raise
        self.finish(i)
        sim.event('finish', i, a['out'])
        if a['out'] == 'raise':
            e = make_exc(a['exc'], i)
            if a.get('same'):       # several raise one and the same object
                e = self.same.setdefault(a['exc'], e)
            self.raised[i] = e
            raise e
        if a['out'] == 'retexc':
            return make_exc(a['exc'], i)
        return None if a['out'] == 'none' else ('val', i)

    def run(self):
        sim, prog = self.sim, self.prog
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)

        async def settle(f, i, a):
            try:
                v = await self.body(i, a)
            except asyncio.CancelledError:
                f.cancel()
            except BaseException as e:
                f.set_exception(e)
            else:
                if not f.done():
                    f.set_result(v)

        async def cancel(t, i, at):
            await asyncio.sleep(at)
            if not t.done():
                self.hit.add(i)
                sim.count('fault.awaitable_cancelled')
                sim.event('cancel', i)
                t.cancel()
                self.ended[i].set()

        async def main():
            aws, self.index = [], []
            self.ended = [asyncio.Event() for _ in prog['aws']]
            keep = []
            for i, a in enumerate(prog['aws']):
                co = self.body(i, a)
                if a['kind'] == 'task':
                    aw = loop.create_task(co)
                    if a['cancel'] is not None:
                        keep.append(loop.create_task(
                            cancel(aw, i, a['cancel'])))
                elif a['kind'] == 'future':
                    aw = loop.create_future()
                    co.close()
                    keep.append(loop.create_task(settle(aw, i, a)))
                elif a['kind'] in CLASSES:
                    aw = CLASSES[a['kind']](co)
                else:
                    aw = co
                aws.append(aw)
                self.index.append(i)
                if a['again']:
                    aws.append(aw)
                    self.index.append(i)
            given = {'list': lambda: aws, 'tuple': lambda: tuple(aws),
                     'gen': lambda: (x for x in aws),
                     'iter': lambda: iter(aws)}[prog['as']]()
            if prog.get('before') is not None:
                await asyncio.sleep(prog['before'])
            args = (given,) if prog['only'] == 'default' \
                else (given, ONLY[prog['only']])
            kw = {}
            if prog.get('kw') and len(args) == 2:
                kw = {'only': args[1]}
                args = args[:1]
            try:
                if prog['mode'] == 'first':
                    try:
                        self.out = ('ret', await aio_mod.raise_first_exc(
                            *args, **kw))
                    except BaseException as e:
                        self.out = ('exc', e)
                    self.first_state = len(self.finished)
                    return
                async for e in aio_mod.gather_excs(*args, **kw):
                    if self.first_state is None:
                        self.first_state = len(self.finished)
                    self.got.append(e)
                    sim.event('got', type(e).__name__)
                    if prog['pause'] is not None:
                        await asyncio.sleep(prog['pause'])
                    if prog['mode'] == 'stop':
                        break
                self.out = ('ret', None)
            except BaseException as e:
                self.out = ('exc', e)
            finally:
                if self.first_state is None:
                    self.first_state = len(self.finished)

        async def bounded():
            await asyncio.wait([loop.create_task(main())], timeout=1_000_000)

        loop.run_until_complete(bounded())
        sim.event('over')
        self.over = len(self.finished)
        self.unfinished_bad = list(self.bad_cancel)
        shutdown(sim, loop)


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None or not hasattr(w, 'over'):
        return [] if outcome == 'done' else [(f'stuck-{outcome}', '')]
    viol = []
    n = len(prog['aws'])
    if w.out is None:
        return [('hang', f'never finished; awaitables done: {w.finished}')]
    if w.unfinished_bad:
        viol.append(('cancelled', f'awaitables {w.unfinished_bad} were '
                     'cancelled by the helper'))
    if w.first_state != n:
        viol.append(('too-early', f'only {w.first_state} of {n} awaitables had '
                     'finished when it reported'))
    only = ONLY[prog['only']]
    want = [w.raised[i] for i in w.index
            if i in w.raised and isinstance(w.raised[i], only)]
    fails = [i for i in w.finished if i in w.raised]
    sim.data['nontrivial'] = len(fails) > 1 and fails != sorted(fails)

    def eq(a, b):
        return a is b or (isinstance(a, asyncio.CancelledError)
                          and isinstance(b, asyncio.CancelledError))

    if prog['mode'] == 'first':
        kind, v = w.out
        if want:
            if kind != 'exc' or not eq(v, want[0]):
                viol.append(('first', f'expected {want[0]!r}, got {kind} '
                             f'{v!r}'))
        elif w.out != ('ret', None):
            viol.append(('first', f'expected None, got {kind} {v!r}'))
        return viol
    if w.out[0] == 'exc':
        viol.append(('raised', f'gather_excs raised {w.out[1]!r}'))
        return viol
    exp = want[:1] if prog['mode'] == 'stop' else want
    if len(exp) != len(w.got) or not all(map(eq, exp, w.got)):
        viol.append(('yielded', f'expected {exp}, got {w.got} (only '
                     f'{prog["only"]})'))
    return viol
