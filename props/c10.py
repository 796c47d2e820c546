"""C10: batch size, concurrency, FIFO order and the batch timeout."""

from . import batchworld as bw
from .batchworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, EPS, setup,
                         run)     # noqa

ID = 'C10'
THREADS = False
BUDGET = {'quick': 12000, 'thorough': 400000}
RULE = ('seeded arrival sequences of 1..40 calls with gaps straddling the '
        'batch timeout, max_batch_size 1..256 (a third of the runs change it '
        'while running), 1..5 concurrent batches lasting from 0 to several '
        'timeouts.  Judged over the recorded history: size, executions in '
        'progress, arrival order, sharing of batches, lateness.  Exact timer '
        'ties are not judged.  Non-trivial: two batches, one of two items')


def generate(rng, tier):
    p = bw.generate(rng, tier, weird_p=0, dup_p=rng.choice((0, 0, .2)),
                    cancel_p=rng.choice((0, 0, .1)), retain_p=.2,
                    fail_p=.15, mutate_p=.3, big_p=.2, base_p=0)
    if rng.random() < .5:       # mostly distinct keys: more batches
        for i, c in enumerate(p['calls']):
            c['key'] = f'k{i}'
    return p


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = len(w.batches) > 1 and any(
        len(b.items) > 1 for b in w.batches)
    if outcome != 'done':
        return w.viol + [(f'stuck-{outcome}', repr(sim.describe()))]
    return bw.judged(w, judge)


def judge(w):
    prog = w.prog
    viol = list(w.viol)
    bt, conc = prog['bt'], prog['conc']
    batches = sorted(w.batches, key=lambda b: b.seq)

    def sizes(t0, t1):
        """The values max_batch_size had at some time in [t0, t1]."""
        out = []
        h = w.size_hist
        for i, (t, n) in enumerate(h):
            nxt = h[i + 1][0] if i + 1 < len(h) else float('inf')
            if t <= t1 + EPS and nxt >= t0 - EPS:
                out.append(n)
        return out

    flat, home = [], {}
    for b in batches:
        if not b.items:
            viol.append(('empty-batch', f'batch {b.n} at {b.at}'))
            continue
        idx = [i for _, i in b.items]
        if any(i is None for i in idx):
            viol.append(('foreign-item', f'{b.items}'))
            return viol
        flat += idx
        for i in idx:
            home.setdefault(i, b)
        first = w.calls[idx[0]]
        last = max((w.calls[i] for i in idx), key=lambda c: c.seq)
        allowed = sizes(first.at, b.at)
        if len(b.items) > max(allowed):
            viol.append(('too-big', f'batch {b.n}: {len(b.items)} items, '
                         f'max_batch_size {allowed}'))
        if b.running > conc:
            viol.append(('too-many-concurrent', f'{b.running} executions at '
                         f'{b.at}, limit {conc}'))
        # lateness
        full = len(b.items) >= max(sizes(first.at, last.at + bt))
        due = last.at if full else last.at + bt
        if b.at > due + EPS:
            free = idle_since(w, due + EPS, b.at - EPS, conc, b)
            if free is not None:
                viol.append(('late', f'batch {b.n} {b.items}: last arrival '
                             f'{last.at}, due {due}, started {b.at}; a slot '
                             f'was free at {free} (limit {conc})'))
    work = [w.calls[i] for i in flat]
    for a, b in zip(work, work[1:]):
        if a.seq > b.seq:
            viol.append(('order', f'call {b} arrived before {a} but comes '
                         f'after it: {flat}'))
            return viol
    for a, b in zip(work, work[1:]):
        ba, bb = home[a.n], home[b.n]
        if ba is bb or b.at - a.at >= bt - EPS:
            continue
        first = w.calls[ba.items[0][1]]
        if len(ba.items) < min(sizes(first.at, max(a.at, b.at) + EPS)):
            viol.append(('not-shared', f'{a} and {b} arrived {b.at - a.at} '
                         f'apart (timeout {bt}) but batch {ba.items} was not '
                         f'full ({prog["size"]})'))
    return viol


def idle_since(w, t0, t1, conc, me):
    """An instant in [t0, t1] with fewer than `conc` executions, or None."""
    if t1 <= t0:
        return None
    points = sorted({t0, t1} | {
        t for b in w.batches for t in (b.at, b.ended_at)
        if t is not None and t0 < t < t1})
    for a, b in zip(points, points[1:]):
        mid = (a + b) / 2
        if b - a < EPS:
            continue
        n = sum(x.at < mid and (x.ended_at is None or x.ended_at > mid)
                for x in w.batches if x is not me)
        if n < conc:
            return mid
    return None
