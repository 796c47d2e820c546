"""C03: buffered calls are never lost."""

from . import bufworld as bw
from .bufworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, setup,
                       run)     # noqa

ID = 'C03'
THREADS = True
BUDGET = {'quick': 14000, 'thorough': 450000}
STALLS = (0.004, 0.06, 0.4)
STALL_P = 0.06
RULE = ('seeded programs of 1..4 actors (loop thread and foreign threads) '
        'submitting through call/await_/map/amap with delays and failing '
        'producers, wait() calls, a wrapped function that fails, mutates its '
        'set, raises cancellations, a wrapper that is dropped, producers that '
        'take for ages; one seeded schedule each.  Judged over the '
        'history once everything had time to be delivered.  Non-trivial: at '
        'least two submissions and one call')


def generate(rng, tier):
    return bw.generate(rng, tier, dup_p=rng.choice((0, 0, 0.3)),
                       foreign_p=0.55, shutdown_p=0.06)


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = bw.nontrivial(w)
    if w.down is None and outcome != 'done':
        # progress is C07's business; what never got delivered is ours
        return [v for v in bw.delivered(w) if v[0] == 'lost'
                or v[0] != 'lost']
    return bw.delivered(w)
