"""C01: cache single-flight."""

from . import cacheworld as cw
from .cacheworld import (REAL, STUB, ASSUMPTIONS, SIM, STALLS, STALL_P, FOCUS,
                         setup, run)     # noqa

ID = 'C01'
THREADS = True
BUDGET = {'quick': 20000, 'thorough': 600000}
RULE = ('seeded programs of 1..4 threads x 1..3 callers x 1..2 keys with loop '
        'stops/closes/abandonment, failures, cancellation; one seeded '
        'schedule each.  Non-trivial: at least two loops called the same key; '
        'distinct: distinct (interleaving hash, event history hash)')


def generate(rng, tier):
    return cw.generate(rng, tier, fail_p=0.15, cancel_p=0.15, fate_p=0.45)


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = cw.nontrivial(w)
    viol = list(w.viol)
    good = {}
    for i in w.invs:
        if i.how == 'ok':
            good.setdefault(i.key, i)
    for c in w.calls:
        if c.out != 'value':
            continue
        if not any(i.key == c.key and i.value is c.value and
                   i.how in ('ok', 'late-ok') for i in w.invs):
            viol.append(('no-computation', f'call {c.id} for key {c.key} got '
                         f'{c.value!r}, which nothing computed'))
        g = good.get(c.key)
        if g is not None and c.end > g.seq1 and \
                c.value is not g.value:
            viol.append(('other-value', f'call {c.id} got {c.value!r}, the '
                         f'computed result is invocation {g.id}'))
    # a caller still waiting or arriving after the success must get the value
    for c in w.calls:
        g = good.get(c.key)
        if g is None or c.out in (None, 'value', 'cancelled', 'abandoned',
                                  'flagged'):
            continue
        if c.end > g.seq1 and not _own(w, c):
            viol.append(('no-value', f'call {c.id} ended with {c.out} '
                         f'{c.exc!r} after invocation {g.id} succeeded'))
    return viol


def _own(w, c):
    return any(i.call == c.id and i.how in ('raised', 'cancelled')
               for i in w.invs)
