"""C04: the batcher returns to each caller exactly its own outcome."""

from . import batchworld as bw
from .batchworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, setup,
                         run)     # noqa

ID = 'C04'
THREADS = False
BUDGET = {'quick': 12000, 'thorough': 400000}
RULE = ('seeded programs of 1..40 calls with seeded arrival times and shared '
        'keys; batch functions that reorder, delay, yield exceptions, omit '
        'keys, raise (also CancelledError and BaseException) before, between '
        'or after yields, yield unknown keys or twice.  Judged: every call is '
        'answered, with the object produced for its key.  Non-trivial: two '
        'batches and two calls')


def generate(rng, tier):
    return bw.generate(rng, tier, weird_p=rng.choice((0, 0.1)))


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = bw.nontrivial(w)
    viol = bw.judged(w, bw.own_outcome)
    if outcome != 'done' and not viol:
        viol.append((f'stuck-{outcome}', repr(sim.describe())))
    return viol
