"""C11: same-key requests are computed once per retention window."""

from . import batchworld as bw
from .batchworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, EPS, setup,
                         run)     # noqa

ID = 'C11'
THREADS = False
BUDGET = {'quick': 12000, 'thorough': 400000}
RULE = ('seeded call sequences over few keys with gaps around the retention '
        'timeout and the completion times, retention 0, short and long, '
        'values and failures, some callers cancelled.  Judged: which call '
        'added work to which batch and what each call got, against the window '
        'of the request it joined; instants that tie with the end of a window '
        'are not judged.  Non-trivial: a call joined an earlier request and '
        'another one was computed afresh after a window')


def generate(rng, tier):
    many = rng.random() < 0.003
    p = bw.generate(rng, tier, weird_p=0, dup_p=.75, retain_p=.65,
                    cancel_p=0 if many else rng.choice((0, 0, 0, .2)),
                    fail_p=0 if many else .25, base_p=.05,
                    huge_p=many)
    if p['retain'] and rng.random() < 0.03:
        p['retain'] = rng.choice((600.0, 4000.0, 20_000.0))
    if many:
        return many_keys(rng, p)
    R = p['retain']
    U = max(p['bt'], 0.01)
    if R:
        # arrival gaps around the window
        t = 0.0
        for c in p['calls']:
            t += rng.choice((0, 0, .1 * U, .4 * R, .9 * R, R + .37 * U,
                             .95 * R, 1.05 * R, 1.3 * R + U))
            c['at'] = round(t, 6)
    return p


def many_keys(rng, p):
    """A lot of keys are remembered; some are asked for again."""
    n = rng.choice((600, 1100, 2100))
    c = {**p['calls'][0], 'at': 0.0, 'cancel': None, 'again': False,
         'explicit': True}
    calls = [{**c, 'key': f'k{i}', 'spin': 0} for i in range(n)]
    p.update(size=rng.choice((256, 1000)), bt=0.05, conc=5, omit=[],
             retain=rng.choice((10.0, 500.0, 0.0)))
    p.pop('twin', None)
    t = 0.0
    for f in (.3, .5, .9, 1.1, 1.3, 2.7):
        t = round(f * (p['retain'] or 10.0), 6)
        calls += [{**c, 'key': f'k{i}', 'at': t} for i in
                  rng.sample(range(n), 3) + [0, n - 1]]
    p['calls'] = calls
    return p


class Req:
    """One computation of a key."""

    def __init__(self, call, batch):
        self.call = call
        self.batch = batch
        self.members = [call]
        self.done = self.done_at = None
        self.expect = None               # ('val'|'exc', obj) or None
        key = call.key
        for k, kind, obj, seq, at in batch.yields:
            if k == key:
                self.done, self.done_at = seq, at
                self.expect = (kind, obj)
                return
        if batch.error is not None:
            self.done, self.done_at = batch.error[1:]
        elif batch.end is not None:
            self.done, self.done_at = batch.end, batch.ended_at

    def __repr__(self):
        return f'request of {self.call} done at {self.done_at}'


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    if outcome != 'done':
        return w.viol + [(f'stuck-{outcome}', repr(sim.describe()))]
    sim.data['nontrivial'] = judge(w)[1]
    return bw.judged(w, lambda w: judge(w)[0])


def judge(w):
    prog = w.prog
    viol = list(w.viol)
    R = prog['retain']
    home = {}
    for b in w.batches:
        if len(set(b.keys)) != len(b.keys):
            viol.append(('key-twice', f'batch {b.n}: {b.items}'))
        for k, i in b.items:
            if i is None or w.calls[i].key != k:
                viol.append(('wrong-key', f'batch {b.n}: {b.items}'))
                return viol, False
            if i in home:
                viol.append(('work-twice', f'call {i} in two batches'))
            home[i] = b
    last = {}
    joined = afresh = 0
    for c in sorted((c for c in w.calls if c.seq is not None),
                    key=lambda c: c.seq):
        prev = last.get(c.key)
        new = c.n in home
        if w.cut and c.cancelled and not new:
            continue        # the loop ended before its batch started
        # open: c must join; closed: c must be computed afresh
        is_open = is_closed = False
        if prev is None:
            is_closed = True
        elif prev.done is None or c.seq < prev.done:
            is_open = True
        elif R > 0:
            is_open = c.at < prev.done_at + R - EPS
            is_closed = c.at > prev.done_at + R + EPS
        else:
            o = prev.call
            is_closed = c.at > prev.done_at + EPS or (
                not o.cancelled and not o.spec['cancel']
                and o.end is not None and c.seq > o.end)
        if new and is_open:
            viol.append(('extra-work', f'{c} added work although {prev} was '
                         f'pending or retained (retention {R})'))
        if not new and is_closed:
            viol.append(('stale', f'{c} did not add work: {prev}, retention '
                         f'{R}'))
        if new:
            if prev is not None:
                afresh += 1
            last[c.key] = Req(c, home[c.n])
            last.setdefault('*', []).append(last[c.key])
        elif prev is not None:
            joined += 1
            prev.members.append(c)
    for r in last.get('*', ()):
        got = []
        for c in r.members:
            if c.cancelled or c.spec['cancel'] or c.out is None:
                continue
            kind, obj = c.out
            got.append((c, kind, obj))
            if r.expect is None:
                continue
            k, o = r.expect
            if isinstance(o, StopIteration) and k == 'exc' == kind and \
                    isinstance(obj, RuntimeError):
                continue
            if kind != k or obj is not o:
                viol.append(('other-outcome', f'{c} joined {r}: expected '
                             f'{k} {o!r}, got {kind} {obj!r}'))
        for (c, k, o), (d, l, p) in zip(got, got[1:]):
            if k != l or (k == 'val' and o is not p) or (
                    k == 'exc' and (type(o) is not type(p)
                                    or str(o) != str(p))):
                viol.append(('different-outcomes', f'{c} got {k} {o!r}, {d} '
                             f'got {l} {p!r} from {r}'))
    return viol, joined > 0 and afresh > 0
