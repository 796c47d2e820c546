"""C06: cache callers see only their own outcome."""

from . import cacheworld as cw
from .cacheworld import (REAL, STUB, ASSUMPTIONS, SIM, STALLS, STALL_P, FOCUS,
                         setup, run)     # noqa

ID = 'C06'
THREADS = True
BUDGET = {'quick': 16000, 'thorough': 500000}
RULE = ('as C05 with higher failure and cancellation rates; every outcome is '
        'attributed: a value must come from a successful invocation of its '
        'key, an exception from the call\'s own invocation (context-variable '
        'call id), a cancellation from the harness.  Non-trivial: two loops '
        'called the same key')


def generate(rng, tier):
    return cw.generate(rng, tier, fail_p=0.45, cancel_p=0.45, fate_p=0.45,
                       sieve=True, resume=True)


def check(sim, prog, outcome):
    w = sim.data.get('world')
    if w is None:
        return []
    sim.data['nontrivial'] = cw.nontrivial(w)
    viol = [v for v in w.viol if v[0] == 'mixed-up']
    inv = {i.id: i for i in w.invs}
    raised = {}
    for i in w.invs:
        if i.how == 'raised':
            raised.setdefault(i.call, []).append(i)
    for c in w.calls:
        if c.out in (None, 'abandoned', 'flagged', 'cancelled'):
            continue
        if c.out == 'value':
            if not any(i.key == c.key and i.how in ('ok', 'late-ok')
                       and i.value is c.value for i in w.invs):
                viol.append(('wrong-value', f'call {c.id} for key {c.key} '
                             f'returned {c.value!r}'))
        elif c.out == 'cancelled-by-nobody':
            viol.append(('foreign-cancel', f'call {c.id} got CancelledError '
                         f'although nobody cancelled it'))
        else:
            tag = getattr(c.exc, 'tag', None)
            if tag is None:
                viol.append(('foreign-exception', f'call {c.id} got '
                             f'{type(c.exc).__name__}{c.exc.args!r}, which no '
                             f'invocation raised'))
            elif inv[tag[1]].call != c.id:
                viol.append(('shared-exception', f'call {c.id} got the '
                             f'exception of invocation {tag[1]}, performed by '
                             f'call {inv[tag[1]].call}'))
    # a failed or cancelled computation delays nobody beyond a recomputation
    for k, d, now, *how in w.delays:
        if k == 'waits-for-nothing' and how and how[0] in ('cancelled',
                                                            'raised'):
            viol.append(('delayed-by-failure', d))
        elif k == 'cancel-stuck':
            viol.append((k, d))
    return viol
