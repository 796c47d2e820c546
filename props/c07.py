"""C07: buffer wait() is a true barrier and always returns."""

from . import bufworld as bw
from .bufworld import (REAL, STUB, ASSUMPTIONS, SIM, FOCUS, setup,
                       run)     # noqa

ID = 'C07'
THREADS = True
BUDGET = {'quick': 14000, 'thorough': 450000}
STALLS = (0.004, 0.06, 0.4)
STALL_P = 0.06
RULE = ('seeded programs as for C03 with more waiters (wait, '
        'wait_from_anywhere, cancel=True/False, several at once, cancelled '
        'ones) and cancellation of the background task or of all tasks at a '
        'seeded instant; one seeded schedule each.  Judged: the barrier at '
        'every wait() return, every wait returns, every shutdown ends.  '
        'Non-trivial: at least one wait or shutdown and one submission')


def generate(rng, tier):
    return bw.generate(rng, tier, wait_p=0.5, shutdown_p=0.3, foreign_p=0.35)


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = bool(w.subs) and bool(
        w.waits or w.prog['shutdown'])
    viol = [v for v in w.viol if v[0] in ('barrier', 'wait-raised',
                                          'background-alive')]
    if outcome != 'done':
        pend = [(x.actor, x.spec['cancel'], round(x.at, 4)) for x in w.waits
                if x.end is None]
        what = 'shutdown-stuck' if w.down is not None else \
            'wait-stuck' if pend else 'stuck'
        viol.append((f'{what}-{outcome}', f'pending waits {pend}; '
                     f'{len(w.calls)} calls; {sim.describe()}'[:600]))
    return viol
