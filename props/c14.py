"""C14: cache keys: same arguments share, different arguments never do."""

import asyncio
from collections import OrderedDict
from collections.abc import MutableMapping

from sim import target
from sim.runner import InvalidProgram

from .common import make_exc, pick

ID = 'C14'
THREADS = True
BUDGET = {'quick': 9000, 'thorough': 300000}
SIM = {'max_steps': 100_000, 'max_time': 5000.0}
FOCUS = ('threadsafe_async_cache',)
RULE = ('seeded histories of 1..12 steps over a small set of call signatures '
        '(0..3 positional, 0..3 keyword arguments in any order, equal but '
        'distinct objects, hash and repr collisions, lookalike nestings); a '
        'step is 1..5 calls at once on one loop or on two threads, or an '
        'eviction, overwrite or clear of the store; stores are the default, '
        'dict, minimal and falsy mappings, LRUs and one that retains nothing; '
        'sometimes one decorator object serves two functions.  '
        'Judged: invocations per key class and step, values, number of '
        'entries.  Non-trivial: one signature shared and two signatures that '
        'differ both occurred')
REAL = ['aiuti.asyncio.threadsafe_async_cache (unmodified source)',
        'asyncio loops, tasks']
STUB = ['threads, locks, selectors, clock', 'the wrapped function, the stores '
        'and the callers (harness)']
ASSUMPTIONS = ['evictions other than those of an LRU happen between steps',
               'arguments are hashable']

aio_mod = None


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')


class Eq:
    """Equal to its copies; default repr."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Eq) and other.v == self.v

    def __hash__(self):
        return hash(('Eq', self.v))


class Clash:
    """Distinct values with one hash and one repr."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Clash) and other.v == self.v

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Clash'


def value(name):
    if isinstance(name, int):
        return name
    if isinstance(name, list):
        # looks like keyword arguments
        items = [(n, value(v)) for n, v in name[1]]
        return items[0] if name[0] == 'item' else tuple(items) \
            if name[0] == 'items' else frozenset(items)
    return {'i1': lambda: 1, 'f1': lambda: 1.0, 'i0': lambda: 0,
            's1': lambda: '1', 'a': lambda: 'a', 'b': lambda: 'b',
            'm1': lambda: -1, 'm2': lambda: -2, 'none': lambda: None,
            'empty': lambda: '', 'eqx': lambda: Eq('x'), 'eqy': lambda: Eq('y'),
            'cx': lambda: Clash('x'), 'cy': lambda: Clash('y'),
            'pair': lambda: ('a', 1), 'nest': lambda: (('a', 1),),
            'tup': lambda: (), 'fs': lambda: frozenset(),
            'fsp': lambda: frozenset([('a', 1)]),
            'args': lambda: ((), frozenset()),
            't': lambda: True, 'f': lambda: False, 'nz': lambda: -0.0,
            'dots': lambda: ..., 'exc': lambda: KeyError, 'long': lambda:
            'x' * 300, 'longer': lambda: 'x' * 300 + 'y',
            'big': lambda: 10 ** 20, 'bytes': lambda: b'a'}[name]()


NAMES = ('i1', 'f1', 'i0', 's1', 'a', 'b', 'm1', 'm2', 'none', 'empty', 'eqx',
         'eqy', 'cx', 'cy', 'pair', 'nest', 'tup', 'fs', 'fsp', 'args', 'big',
         'bytes', 't', 'f', 'nz', 'dots', 'exc', 'long', 'longer')


def generate(rng, tier):
    dom = rng.choice((('i1', 'a'), ('i1', 'i0', 'a', 'none'),
                      ('i1', 'a', 'pair', 'fsp', 'nest'),
                      ('eqx', 'cx', 'cy'), ('t', 'f', 'i0', 'i1', 'nz'),
                      ('long', 'longer', 'none'), ('m1', 'm2', 'f1', 'i1', 's1'),
                      NAMES))
    kws = rng.choice((('a',), ('a', 'b'), ('a', 'b', 'key', 'self'),
                      ('func', 'cache', 'args', 'kwargs'),
                      ('func', 'loop', 'fut', 'event', 'lock', 'a', 'b')))
    wide = rng.random() < 0.04
    sigs = []
    for _ in range(rng.randrange(1, 6)):
        if sigs and rng.random() < 0.55:
            # a variation of one already there
            s = rng.choice(sigs)
            s = {'a': list(s['a']), 'k': [list(x) for x in s['k']]}
            how = rng.randrange(8)
            if how == 0:
                rng.shuffle(s['k'])
            elif how == 1 and s['k']:
                n, v = s['k'].pop()
                s['a'].append(v)
            elif how == 2 and s['a']:
                s['a'].reverse()
            elif how == 3 and s['k']:
                s['k'][0][1] = rng.choice(dom)
            elif how == 4 and s['a']:
                v = s['a'].pop()
                free = [k for k in kws if k not in [x[0] for x in s['k']]]
                if free:
                    s['k'].append([free[0], v])
            elif how == 6 and s['k']:
                s['a'].append(['item', [s['k'].pop()]])
            elif how == 7 and s['k']:
                s['a'].append([rng.choice(('items', 'fset')), s['k']])
                s['k'] = []
            elif how == 5 and len(s['k']) > 1:
                s['k'][0][1], s['k'][1][1] = s['k'][1][1], s['k'][0][1]
        else:
            names = list(kws)
            rng.shuffle(names)
            s = {'a': [rng.choice(dom) for _ in range(
                rng.choice((5, 8, 17) if wide else (0, 1, 1, 2, 3)))],
                'k': [[n, rng.choice(dom)] for n in names[:rng.choice(
                    (0, 0, 1, 2, 3))]]}
        sigs.append(s)
    steps = []
    cache = pick(rng, (3, 'none'), (2, 'dict'), (3, 'map'), (1, 'falsy'),
                 (3, 'lru'), (0.5, 'sieve'))
    for _ in range(rng.randrange(1, 13)):
        if cache not in ('none', 'lru', 'sieve') and rng.random() < 0.25:
            steps.append({'op': pick(rng, (3, 'evict'), (1, 'clear'),
                                     (1, 'poke')), 'at': rng.randrange(4)})
            continue
        n = pick(rng, (5, 1), (3, 2), (2, 3), (1, 5))
        steps.append({'op': 'call', 'thread': rng.random() < 0.25,
                      'calls': [{'sig': rng.randrange(len(sigs)),
                                 'at': rng.choice((0, 0, 0.01, 0.02))}
                                for _ in range(n)]})
    if rng.random() < 0.01:
        # many different ones, then some of them again
        cache = rng.choice(('none', 'none', 'dict', 'map'))
        n = rng.choice((110, 140, 270, 530, 1050))
        sigs = [{'a': [1000 + i], 'k': []} for i in range(n)]
        steps = [{'op': 'call', 'thread': False,
                  'calls': [{'sig': i, 'at': 0} for i in range(j, min(n, j + 60))]}
                 for j in range(0, n, 60)]
        again = [0, 1, n - 1] + [rng.randrange(n) for _ in range(4)]
        steps.append({'op': 'call', 'thread': rng.random() < 0.3,
                      'calls': [{'sig': i, 'at': 0} for i in again]})
    return {'sigs': sigs, 'steps': steps, 'cache': cache,
            'cap': rng.choice((1, 2, 3)),
            'dur': rng.choice((None, 0.0, 0.015)),
            'fails': sorted({rng.randrange(12) for _ in range(2)})
            if rng.random() < 0.25 else [],
            'exc': rng.choice(('ValueError', 'KeyError')),
            'results': rng.choice(('obj', 'falsy', 'none')),
            'form': rng.randrange(4), 'twin': rng.random() < 0.25}


class Token:
    def __init__(self, cls, n, true):
        self.cls = cls
        self.n = n
        self.true = true

    def __bool__(self):
        return self.true

    def __repr__(self):
        return f'result {self.n} of class {self.cls}'


class Minimal(MutableMapping):
    """Only what a MutableMapping must have; logs who stores what."""

    def __init__(self, w):
        self.d = OrderedDict()
        self.w = w

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.w.stored += 1
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class FalsyMap(Minimal):
    def __bool__(self):
        return False


class Lru(Minimal):
    def __getitem__(self, k):
        v = self.d[k]
        self.d.move_to_end(k)
        return v

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        self.d.move_to_end(k)
        while len(self.d) > self.w.prog['cap']:
            self.d.popitem(last=False)
            self.w.sim.count('fault.evicted')


class Sieve(Minimal):
    def __setitem__(self, k, v):
        self.w.stored += 1


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.viol = []
        self.stored = 0
        self.invoked = []            # (class, step, ok)
        self.kept = {}               # class -> value (own model)
        self.step = None
        self.shared = False

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    def sig(self, i):
        """Fresh objects for every call."""
        s = self.prog['sigs'][i]
        return tuple(value(v) for v in s['a']), \
            {n: value(v) for n, v in s['k']}

    def classes(self):
        """Numbers the signatures' classes by the property's definition."""
        reps = []
        self.cls = []
        for i in range(len(self.prog['sigs'])):
            a, k = self.sig(i)
            for j, (ra, rk) in enumerate(reps):
                if len(a) == len(ra) and all(x == y for x, y in zip(a, ra)) \
                        and rk.keys() == k.keys() \
                        and all(k[n] == rk[n] for n in k):
                    self.cls.append(j)
                    break
            else:
                self.cls.append(len(reps))
                reps.append((a, k))
        self.reps = reps

    def class_of(self, a, k):
        for j, (ra, rk) in enumerate(self.reps):
            if len(a) == len(ra) and all(x == y for x, y in zip(a, ra)) and \
                    rk.keys() == k.keys() and all(k[n] == rk[n] for n in k):
                return j
        return None

    async def compute(self, args, kwargs):
        sim, p = self.sim, self.prog
        n = len(self.invoked)
        c = self.class_of(args, kwargs)
        if c is None:
            self.flag('arguments', f'the function got {args} {kwargs}')
        rec = [c, self.step, None]
        self.invoked.append(rec)
        sim.event('invoke', n, c)
        if p['dur'] is not None:
            await asyncio.sleep(p['dur'])
        if n in p['fails']:
            rec[2] = False
            sim.count('fault.function_raised')
            raise make_exc(p['exc'], n)
        rec[2] = True
        v = Token(c, n, p['results'] == 'obj')
        if p['results'] == 'none' and c == 0:
            v = None
        return v

    def make(self):
        p, d = self.prog, aio_mod.threadsafe_async_cache
        kind = p['cache']
        self.store = {'none': lambda: None, 'dict': dict,
                      'map': lambda: Minimal(self),
                      'falsy': lambda: FalsyMap(self),
                      'lru': lambda: Lru(self),
                      'sieve': lambda: Sieve(self)}[kind]()
        compute = self.compute

        async def func(*a, **k):
            return await compute(a, k)

        async def twin(*a, **k):
            return self.second(a, k)

        # another function, decorated alike or with the same decorator
        self.twins = []
        self.twin = d(twin, cache={}) if p['form'] % 2 else d()(twin)
        if kind == 'none':
            f = p['form']
            if f in (0, 3):
                self.twin = d(twin)
                return d(func) if f == 0 else d(func, cache=None)
            deco = d() if f == 1 else d(cache=None)
            self.twin = deco(twin)
            return deco(func)
        if p['form'] % 2:
            return d(func, cache=self.store)
        return d(cache=self.store)(func)

    def second(self, a, k):
        c = self.class_of(a, k)
        if c in [t[1] for t in self.twins]:
            self.flag('recompute', f'second function, class {c}')
        self.twins.append(('twin', c))
        return self.twins[-1]

    async def ask_twin(self, c):
        a, k = self.sig(c)
        v = await self.twin(*a, **k)
        if not any(v is t for t in self.twins) or v[1] != self.cls[c]:
            self.flag('other-function', f'a call of another function with '
                      f'{a} {k} got {v!r}')

    # -- steps -------------------------------------------------------------------------

    def run(self):
        sim, prog = self.sim, self.prog
        if not prog['sigs'] or prog['cap'] < 1 or any(
                len({n for n, _ in s['k']}) != len(s['k'])
                for s in prog['sigs']):
            raise InvalidProgram('signatures')
        self.classes()
        self.fn = self.make()
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        seen = []
        for i, st in enumerate(prog['steps']):
            self.step = i
            if st['op'] != 'call':
                self.change(st)
                continue
            if any(not 0 <= c['sig'] < len(prog['sigs'])
                   for c in st['calls']):
                raise InvalidProgram('sig')
            seen += [self.cls[c['sig']] for c in st['calls']]
            self.group(i, st, loop)
            if self.viol:
                break
        self.nontrivial = len(set(seen)) > 1 and len(set(seen)) < len(seen)
        sim.event('over')
        loop.close()

    def change(self, st):
        sim, s = self.sim, self.store
        keys = list(s)
        if not keys:
            return
        k = keys[st['at'] % len(keys)]
        c = self.key_class.get(k) if hasattr(self, 'key_class') else None
        sim.event(st['op'], c)
        sim.count('fault.' + st['op'])
        if st['op'] == 'clear':
            s.clear()
            self.kept.clear()
        elif st['op'] == 'evict':
            v = s.pop(k)
            gone = [c for c, kv in self.kept.items() if kv is v]
            if len(gone) != 1:
                self.flag('store', f'stored value {v!r} is no result')
            for c in gone:
                del self.kept[c]
        else:
            v = s[k]
            own = [c for c, kv in self.kept.items() if kv is v]
            if len(own) != 1:
                self.flag('store', f'stored value {v!r} is no result')
                return
            new = Token(own[0], 1000 + self.step, False)
            s[k] = new
            self.kept[own[0]] = new

    def group(self, i, st, loop):
        sim, prog = self.sim, self.prog
        out = []
        first = len(self.invoked)
        if prog['cache'] == 'lru':
            kept = {}
            for v in self.store.d.values():
                for c, kv in self.kept.items():
                    if kv is v:
                        kept[c] = v
            self.kept = kept
        before = dict(self.kept)

        async def one(c, at):
            await asyncio.sleep(at)
            a, k = self.sig(c)
            rec = [self.cls[c], None]
            out.append(rec)
            if prog.get('twin') and not st['thread']:
                await self.ask_twin(c)
            try:
                rec[1] = ('val', await self.fn(*a, **k))
            except Exception as e:
                rec[1] = ('exc', e)
            sim.event('answer', rec[0], rec[1][0])

        async def many(calls):
            await asyncio.wait([asyncio.ensure_future(one(c['sig'], c['at']))
                                for c in calls], timeout=200)

        calls = st['calls']
        if not calls:
            return
        th = None
        if st['thread'] and len(calls) > 1:
            mine, other = calls[::2], calls[1::2]

            def elsewhere():
                lp = asyncio.new_event_loop()
                asyncio.set_event_loop(lp)
                lp.run_until_complete(many(other))
                lp.close()
            th = sim.spawn(elsewhere, name='T1')
        else:
            mine = calls
        loop.run_until_complete(many(mine))
        if th is not None:
            sim.join(th)
        self.judge(i, st, out, before, self.invoked[first:])

    def judge(self, i, st, out, before, invoked):
        prog = self.prog
        exact = prog['cache'] not in ('lru', 'sieve') or len(
            st['calls']) == 1
        for c in {c for c, _ in out}:
            calls = [o for k, o in out if k == c]
            inv = [r for r in invoked if r[0] == c]
            good = sum(r[2] is True for r in inv)
            bad = sum(r[2] is False for r in inv)
            vals = [o[1] for o in calls if o and o[0] == 'val']
            if any(o is None for o in calls):
                self.flag('hang', f'a call of class {c} in step {i} is never '
                          'answered')
                return
            for v in vals:
                if v is None and prog['results'] == 'none' and c == 0:
                    continue
                if not isinstance(v, Token) or v.cls != c:
                    self.flag('wrong-value', f'call of class {c} {self.reps[c]}'
                              f' in step {i} got {v!r}')
            if sum(o[0] == 'exc' for o in calls) != bad:
                self.flag('errors', f'{bad} invocations failed, outcomes '
                          f'{calls}')
            if not exact or prog['cache'] == 'sieve':
                if vals:
                    self.kept[c] = vals[-1]
                    if prog['cache'] == 'lru':
                        for v in vals:
                            if any(v is s for s in self.store.d.values()):
                                self.kept[c] = v
                if prog['cache'] == 'sieve':
                    self.kept.pop(c, None)
                    if len(calls) == 1 and len(inv) != 1:
                        self.flag('recompute', f'{len(inv)} invocations for '
                                  'one call that is not in the store')
                continue
            if c in before:
                if inv:
                    self.flag('recompute', f'class {c} {self.reps[c]} was '
                              f'stored but computed again in step {i}')
                if any(v is not before[c] for v in vals):
                    self.flag('wrong-value', f'class {c}: stored '
                              f'{before[c]!r}, got {vals}')
                continue
            if good > 1 or (not bad and good != 1):
                self.flag('recompute', f'class {c} {self.reps[c]}: {good} '
                          f'computations in step {i} for {len(calls)} calls')
            if good:
                self.kept[c] = vals[0] if vals else None
                if any(v is not vals[0] for v in vals):
                    self.flag('not-shared', f'class {c}: {vals}')
        if self.store is not None and prog['cache'] in ('dict', 'map',
                                                        'falsy'):
            if len(self.store) != len(self.kept):
                self.flag('store-size', f'{len(self.store)} entries for '
                          f'{len(self.kept)} keys')
            vals = list(self.store.values())
            for c, v in self.kept.items():
                if not any(v is x for x in vals):
                    self.flag('store', f'the result of class {c} is not in the '
                              'supplied mapping')


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = getattr(w, 'nontrivial', False)
    viol = list(w.viol)
    if outcome != 'done' and not viol:
        viol.append((f'stuck-{outcome}', repr(sim.describe())))
    return viol
