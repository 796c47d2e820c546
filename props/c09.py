"""C09: cancelling one batcher caller never disturbs the others."""

from . import batchworld as bw
from .batchworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, setup,
                         run)     # noqa

ID = 'C09'
THREADS = False
BUDGET = {'quick': 12000, 'thorough': 400000}
RULE = ('programs as for C04 in which callers are cancelled or time out at a '
        'seeded instant (virtual time plus 0..5 loop cycles) before, during '
        'or after their batch, once or twice, sharing keys and batches with '
        'others.  Judged: every caller not cancelled gets exactly what was '
        'produced for its key, later calls are served.  Non-trivial: a caller '
        'was cancelled while another was waiting')


def generate(rng, tier):
    return bw.generate(rng, tier, cancel_p=0.35, dup_p=rng.choice((0, .4, .7)),
                       fail_p=0.25, weird_p=0, big_p=0.25)


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    gone = [c for c in w.calls if c.cancelled or (
        c.out and c.out[0] == 'exc' and isinstance(c.out[1], TimeoutError)
        and c.spec['cancel'])]
    sim.data['nontrivial'] = any(
        o is not c and o.seq is not None and c.end is not None
        and o.seq < c.end and (o.end is None or o.end > c.end)
        for c in gone for o in w.calls)
    viol = bw.judged(w, bw.own_outcome)
    if outcome != 'done' and not viol:
        viol.append((f'stuck-{outcome}', repr(sim.describe())))
    return viol
