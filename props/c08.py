"""C08: buffer debounces."""

from . import bufworld as bw
from .bufworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, EPS, setup,
                       run)     # noqa

ID = 'C08'
THREADS = True
BUDGET = {'quick': 14000, 'thorough': 450000}
RULE = ('seeded programs of 1..4 actors on the loop thread and foreign '
        'threads: bursts of immediate submissions (3 of 4 programs; no forced '
        'flush, waits with cancel=False) or the general programs of C03 with '
        'forced flushes, failing and slow calls.  Judged in exact virtual '
        'time: no overlap, no empty call, no call earlier than timeout after '
        'the last submission, an idle burst is one call at last + timeout.  '
        'Ties (a gap equal to the timeout) are skipped.  Non-trivial: at '
        'least two submissions and one call')


def generate(rng, tier):
    if rng.random() < 0.25:
        return bw.generate(rng, tier, wait_p=0.45, shutdown_p=0.1)
    p = bw.generate(rng, tier, immediate=True, no_flush=True, prod_fail_p=0,
                    foreign_p=0.35, wait_p=0.15)
    for a in p['actors']:
        for op in a['ops']:
            if op['op'] == 'submit' and op['kind'] == 'map':
                if not op['vals']:
                    op['kind'] = 'call'
                    op['vals'] = [f"v{900 + rng.randrange(99)}"]
                op['delays'] = [None] * (len(op['vals']) + 1)
    if p['T'] < 8 and rng.random() < 0.01:
        # a burst that goes on and on
        U = p['T'] or 0.1
        n = rng.choice((40, 80, 150))
        ops = p['actors'][0]['ops']
        ops[len(ops):] = [
            {'op': 'submit', 'kind': 'call', 'vals': [f'v{2000 + i}'],
             'delays': [None, None], 'fail': None,
             'gap': round(rng.choice((.37, .71, .93)) * U, 5)}
            for i in range(n)]
    p['exact'] = True
    return p


def exact(w):
    viol = []
    T = w.prog['T']
    subs = sorted((s for s in w.subs if s.seq is not None),
                  key=lambda s: s.at)
    for c in w.calls:
        if w.down is not None and c.seq > w.down[0]:
            continue
        for s in subs:
            if s.done_at < c.at - EPS and c.at < s.at + T - EPS:
                viol.append(('too-early', f'call {c.n} started at '
                             f'{c.at:.5f}, {c.at - s.at:.5f} s after {s} was '
                             f'submitted (timeout {T})'))
                break
    # bursts
    bursts = []
    for s in subs:
        gap = s.at - bursts[-1][-1].at if bursts else None
        if gap is not None and abs(gap - T) < 10 * EPS:
            w.sim.count('probe.tie')
            return viol
        if gap is None or gap > T:
            bursts.append([s])
        else:
            bursts[-1].append(s)
    for b in bursts:
        first, last = b[0], b[-1]
        due = last.at + T
        earlier = [s for s in subs if s.at < first.at]
        before = [c for c in w.calls if c.seq < first.begin]
        if any(c.end is None or c.ended_at > first.at - EPS for c in before):
            continue          # not idle
        if any(not any(c.ok and bw.has(c.args, v) for c in before)
               for s in earlier for v in s.must):
            continue          # something is still waiting for a retry
        if w.down is not None and w.down[1] < due + EPS:
            continue
        after = [c for c in w.calls if c.seq > first.begin]
        w.sim.count('probe.idle_burst')
        if len(b) > 1:
            w.sim.count('probe.idle_burst_of_many')
        if not after:
            viol.append(('no-call', f'burst {b} due at {due:.5f} was never '
                         f'delivered'))
            continue
        c = after[0]
        if abs(c.at - due) > EPS * 10:
            viol.append(('wrong-time', f'burst {b} ended at {last.at:.5f}, '
                         f'call {c.n} started at {c.at:.5f} instead of '
                         f'{due:.5f}'))
        miss = [v for s in b for v in s.must if not bw.has(c.args, v)]
        if miss:
            viol.append(('split-burst', f'burst {b}: {miss} not delivered in '
                         f'call {c.n}'))
    return viol


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = bw.nontrivial(w)
    viol = [v for v in w.viol if v[0] in ('overlap', 'empty-call')]
    if prog.get('exact') and not bw.dups(w):
        viol += exact(w)
    return viol
