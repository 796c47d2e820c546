"""C05: cached calls always terminate, promptly."""

from . import cacheworld as cw
from .cacheworld import (REAL, STUB, ASSUMPTIONS, SIM, STALLS, STALL_P, FOCUS,
                         setup, run)     # noqa

ID = 'C05'
THREADS = True
BUDGET = {'quick': 16000, 'thorough': 500000}
RULE = ('seeded programs of 1..4 threads x 1..3 callers x 1..2 keys with '
        'computations that succeed, raise or are cancelled, loops stopped or '
        'closed mid-computation; one seeded schedule each.  Judged: every run '
        'ends (deadlock/livelock/virtual-time-cap detectors) and, at every '
        'quiescent instant, every pending caller has a computation in progress '
        'for its key (or a hosting loop stopped less than 60 virtual seconds '
        'ago).  Non-trivial: two loops called the same key')


def generate(rng, tier):
    return cw.generate(rng, tier, fail_p=0.35, cancel_p=0.3, fate_p=0.3,
                       sieve=True, resume=True)


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = cw.nontrivial(w)
    viol = []
    if outcome != 'done':
        pend = [c.id for c in w.calls if c.out in (None, 'flagged')]
        viol.append((f'stuck-{outcome}', f'run ended as {outcome}; pending '
                     f'calls {pend}; threads {sim.describe()}'))
    viol += [(k, d) for k, d, *_ in w.delays]
    return viol
