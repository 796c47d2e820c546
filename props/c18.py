"""C18: split partitions its input, lazily, evaluating each element once."""

import functools
import itertools

from sim import target
from sim.runner import InvalidProgram

from .common import pick

ID = 'C18'
THREADS = False
BUDGET = {'quick': 12000, 'thorough': 500000}
SIM = {'max_steps': 100_000, 'max_time': 1000.0}
FOCUS = ('split', 'exhaust')
RULE = ('two consumers of the two result iterators take seeded turns (any '
        'interleaving, one stalling for ever, both abandoned), over lists, '
        'ranges, one-shot and endless sources of 0..12 elements, callable '
        '(stateful) and iterable conditions shorter, equal and longer than the '
        'source with truthy and falsy non-bools.  Judged after every turn: '
        'the element returned, the pull log of the source, the call log of '
        'the predicate.  Non-trivial: both consumers took turns and changed '
        'over at least twice')
REAL = ['aiuti.itertools.split, exhaust (unmodified source)']
STUB = ['sources, conditions and the two consumers (harness)']
ASSUMPTIONS = ['the two consumers are cooperative (one thread): '
               'itertools.tee is documented not to be thread-safe',
               'at most one element may be read ahead of what a consumer '
               'needed']

it_mod = None
LIMIT = 400


def setup():
    global it_mod
    it_mod = target.load('aiuti.itertools')


class Truth:
    """Truth by __bool__, with a misleading length."""

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b

    def __len__(self):
        return 0 if self.b else 3


class Sized:
    """Truth by __len__ only."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class NoEq:
    """Neither comparable nor usable as a condition."""

    def __eq__(self, other):
        raise AssertionError('elements are not to be compared')

    __hash__ = None

    def __bool__(self):
        raise AssertionError('elements are not to be tested')

    def __repr__(self):
        return '<NoEq>'


TRUTHY = (True, 1, 'x', (0,), 2.5, 'yes', Truth(True), Sized(2),
          ValueError(), object(), -1, 'False')
FALSY = (False, 0, '', None, (), 0.0, Truth(False), Sized(0), range(0), b'',
         0j, {})
# elements by name; a name which is not listed stands for itself
ELEMS = {'none': None, 'zero': 0, 'nan': float('nan'), 'list': [],
         'stop': StopIteration('element'), 'exc': ValueError('element'),
         'noeq': NoEq(), 'class': int, 'func': len, 'ell': ...,
         'true': True, 'false': False, 'one': 1, 'tuple': (1, 2)}
ODD = tuple(ELEMS)


def generate(rng, tier):
    n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 12))
    if rng.random() < 0.03:
        n = rng.choice((30, 57, 58, 65, 120, 257, 300))
    dom = rng.choice((('a',), ('a', 'b'), ('a', 'b', 'c', 'none', 'zero'),
                      ODD))
    cond = pick(rng, (4, 'call'), (2, 'stateful'), (2, 'list'), (2, 'iter'),
                (0.5, 'cycle'), (0.5, 'tuple'), (0.4, 'seq'), (0.4, 're'))
    m = n if rng.random() < 0.5 else rng.randrange(0, n + 4)
    bias = rng.choice((0.1, 0.5, 0.5, 0.9))
    turns = []
    who = rng.randrange(2)
    for _ in range(rng.choice((0, n, 2 * n + 3, 2 * n + 6, 3 * n + 8))):
        if rng.random() < rng.choice((0.1, 0.5)):
            who = 1 - who
        turns.append(who)
    fn = 'exhaust' if rng.random() < 0.12 else 'split'
    src = pick(rng, (3, 'list'), (1, 'range'), (4, 'iter'), (2, 'gen'),
               (1, 'endless'), (1, 're'), (0.5, 'seq'))
    if src == 'endless' and (fn == 'exhaust' or not n):
        src = 'iter'
    return {'elems': [rng.choice(dom) for _ in range(n)], 'src': src,
            'cond': cond,
            'flags': [rng.random() < bias for _ in range(max(m, 1))]
            if cond == 'cycle' else [rng.random() < bias for _ in range(m)],
            'vals': rng.randrange(12), 'turns': turns,
            'how': rng.choice(('def', 'def', 'obj', 'obj', 'method', 'partial',
                               'class')),
            'drain': rng.choice(('no', '01', '10')),
            'drop': rng.choice((None, None, 0, 1)),
            'fn': fn}


class World:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.viol = []
        self.pulls = []
        self.calls = []              # (element, returned)
        self.cond_pulls = 0
        self.nontrivial = False

    def flag(self, kind, detail):
        self.sim.event('VIOLATION', kind, detail)
        if len(self.viol) < 20:
            self.viol.append((kind, detail))

    def source(self):
        p, sim = self.prog, self.sim
        elems = [ELEMS.get(e, e) for e in p['elems']]
        self.rank = {}
        for e in elems:
            self.rank.setdefault(id(e), len(self.rank))
        kind = p['src']
        if kind == 'range':
            elems = list(range(len(elems)))
            self.elems, self.tracked = elems, False
            return range(len(elems))
        if kind == 'list':
            self.elems, self.tracked = elems, False
            return list(elems)
        if kind == 'seq':
            self.elems, self.tracked = elems, False

            class Seq:               # the old sequence protocol
                def __getitem__(self, i):
                    return elems[i]
            return Seq()
        self.tracked = True
        if kind == 'endless':
            if not elems:
                raise InvalidProgram('endless nothing')
            seq = itertools.islice(itertools.cycle(elems), LIMIT)
            self.elems = [elems[i % len(elems)] for i in range(LIMIT)]
        else:
            seq = iter(elems)
            self.elems = elems
        w = self

        def pull(e):
            w.pulls.append(e)
            sim.event('pull', len(w.pulls))
            if len(w.pulls) >= LIMIT:
                w.flag('greedy', f'{LIMIT} elements pulled from an endless '
                       'source')
                raise OverflowError('endless source')
            return e

        if kind == 'gen':
            return (pull(e) for e in seq)

        if kind == 're':             # starts over, and that would show
            class Re:
                def __iter__(self):
                    return (pull(e) for e in elems)

                def __len__(self):
                    return len(elems)
            return Re()

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                return pull(next(seq))
        return It()

    def condition(self):
        p, sim = self.prog, self.sim
        v = p['vals']
        vals = [TRUTHY[(v + i) % 12] if f else FALSY[(v + i) % 12]
                for i, f in enumerate(p['flags'])]
        kind = p['cond']
        w = self
        if kind in ('call', 'stateful'):
            if not vals:
                vals = [True]

            def pred(e):
                i = len(w.calls)
                r = vals[i % len(vals)] if kind == 'stateful' else \
                    vals[w.rank.get(
                        id(e), e if type(e) is int else 0) % len(vals)]
                w.calls.append((e, r))
                sim.event('pred', i)
                return r
            self.flags = None
            how = p['how']
            if how == 'partial':
                return functools.partial(pred)
            if how in ('obj', 'method'):
                class Cond:
                    def __call__(self, e):
                        return pred(e)

                    def test(self, e):
                        return pred(e)

                    def __bool__(self):
                        return False

                    # callable all the same
                    def __iter__(self):
                        w.flag('cond-iterated', 'a callable condition')
                        return iter(vals)

                    def __len__(self):
                        return len(vals)

                    def __getitem__(self, i):
                        return vals[i]
                if how == 'class':
                    class Meta(type):
                        def __call__(self, e):
                            return pred(e)
                    return Meta('Cond', (), {'__iter__': Cond.__iter__})
                return Cond() if how == 'obj' else Cond().test
            return pred
        if kind == 'cycle':
            self.flags = [vals[i % len(vals)] for i in range(LIMIT)]
            src = itertools.cycle(vals)
        else:
            self.flags = vals
            src = vals
        if kind in ('list', 'tuple'):
            return list(src) if kind == 'list' else tuple(src)
        if kind in ('seq', 're'):
            class Cond:
                if kind == 'seq':
                    def __getitem__(self, i):
                        return vals[i]
                else:
                    def __iter__(self):
                        return iter(vals)

                def __bool__(self):
                    return False
            return Cond()

        def gen():
            for x in src:
                w.cond_pulls += 1
                yield x
        return gen()

    def run(self):
        sim, p = self.sim, self.prog
        if p['cond'] == 'cycle' and not p['flags']:
            raise InvalidProgram('empty cycle')
        if any(t not in (0, 1) for t in p['turns']):
            raise InvalidProgram('turn')
        src = self.source()
        if p['fn'] == 'exhaust':
            if p['src'] == 'endless':
                raise InvalidProgram('endless')
            self.elems = list(self.elems)
            r = it_mod.exhaust(src)
            if r is not None:
                self.flag('exhaust-result', repr(r))
            if self.tracked and len(self.pulls) != len(self.elems):
                self.flag('exhaust-pulls', f'{len(self.pulls)} of '
                          f'{len(self.elems)}')
            if self.tracked and p['src'] != 're' \
                    and next(iter(src), self) is not self:
                self.flag('exhaust-rest', 'source not consumed')
            self.nontrivial = len(self.elems) > 1
            return
        cond = self.condition()
        res = it_mod.split(src, cond)
        if self.pulls or self.calls:
            self.flag('eager', f'{len(self.pulls)} pulls and '
                      f'{len(self.calls)} calls before the first next()')
        try:
            its = [iter(x) for x in res]
        except TypeError as e:
            self.flag('shape', f'{res!r}: {e}')
            return
        if len(its) != 2:
            self.flag('shape', repr(res))
            return
        del res, src, cond
        self.pos = [0, 0]            # next source index for each consumer
        self.over = [False, False]
        self.extra = 0               # next() calls at or after the end
        seen = [0, 0]
        changes = 0
        last = None
        for t in p['turns']:
            if p['drop'] == t and seen[t] >= 2:
                its[t] = None        # abandoned for good
            if its[t] is None or all(self.over) and p['src'] == 'endless':
                continue
            seen[t] += 1
            changes += last is not None and last != t
            last = t
            self.turn(t, its[t])
            if self.viol:
                return
        if p['drain'] != 'no' and p['src'] != 'endless':
            for t in map(int, p['drain']):
                while its[t] is not None and not self.over[t] \
                        and not self.viol:
                    self.turn(t, its[t])
        self.nontrivial = changes >= 2 and all(seen)

    def turn(self, t, it):
        """One next() by consumer `t`, judged at once."""
        sim = self.sim
        try:
            v = next(it)
        except StopIteration:
            v = self
        except OverflowError:
            v = OverflowError
        except TypeError as e:       # e.g. took the condition for a callable
            self.flag('raised', f'consumer {t}: {e!r}')
            return
        sim.event('next', t, v is not self)
        # where the consumer must be now
        i = self.pos[t]
        n = len(self.elems)
        want_true = t == 0
        while True:
            if i >= n or self.flags is not None and i >= len(self.flags):
                exp = self
                break
            if self.flags is not None:
                f = self.flags[i]
            elif i < len(self.calls):
                f = self.calls[i][1]
            elif v is OverflowError:
                exp = self
                break
            else:
                self.flag('no-evaluation', f'consumer {t} passed element {i} '
                          'without evaluating it')
                return
            i += 1
            if bool(f) == want_true:
                exp = self.elems[i - 1]
                break
        if v is OverflowError:
            # legitimate if there was nothing (yet) to find
            if exp is self:
                self.viol = [x for x in self.viol if x[0] != 'greedy']
                self.over = [True, True]
            return
        if exp is self:
            if v is not self:
                self.flag('extra', f'consumer {t} got {v!r} after the end')
            self.over[t] = True
        elif v is self:
            self.flag('missing', f'consumer {t} ended before {exp!r} at '
                      f'{i - 1}')
        elif not same([v], [exp]):
            self.flag('wrong-element', f'consumer {t} got {v!r}, expected '
                      f'{exp!r} at {i - 1}')
        self.pos[t] = i
        need = max(self.pos)
        self.extra += self.over[t]
        if self.tracked and len(self.pulls) > need + 1 + self.extra:
            self.flag('not-lazy', f'{len(self.pulls)} elements pulled, '
                      f'{need} needed')
        if self.tracked and not same(self.pulls,
                                     self.elems[:len(self.pulls)]):
            self.flag('pulled-twice', f'{self.pulls}')
        if self.flags is None:
            if len(self.calls) > need + 1 + self.extra:
                self.flag('extra-evaluation', f'{len(self.calls)} calls, '
                          f'{need} elements needed')
            if not same([e for e, _ in self.calls],
                        self.elems[:len(self.calls)]):
                self.flag('evaluation-order', f'{self.calls}')


def same(a, b):
    """The same objects (numbers of a range are made anew)."""
    return len(a) == len(b) and all(
        x is y or type(x) is type(y) is int and x == y
        for x, y in zip(a, b))


def run(sim, prog):
    w = World(sim, prog)
    sim.data['world'] = w
    w.run()


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = w.nontrivial
    viol = list(w.viol)
    if outcome != 'done' and not viol:
        viol.append((f'stuck-{outcome}', repr(sim.describe())))
    return viol
