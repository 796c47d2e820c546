"""C15: decorator-with-options forms configure exactly like the direct forms."""

import asyncio
import gc

from sim import target
from sim.runner import InvalidProgram

from . import batchworld as bw, bufworld, c08, c10, c11, c14
from .common import pick, shutdown

ID = 'C15'
THREADS = True
BUDGET = {'quick': 7000, 'thorough': 250000}
SIM = {'max_steps': 400_000, 'max_time': 500_000.0}
FOCUS = ('async_background_batcher', 'BufferAsyncCalls',
         'threadsafe_async_cache')
RULE = ('five kinds of runs.  forms: one timed call program run with the '
        'class, @deco(options), deco(f, options), some options omitted '
        '(documented defaults) - histories compared with each other and '
        'judged absolutely (size, concurrency, dispatch time, retention).  '
        'bulk: up to 600 calls at once against sizes around and above the '
        'default.  loops: one decorated function used by 1..3 phases of 1..3 '
        'loops at once, on threads or one after another, some ended with '
        'calls pending, each loop judged on its own.  buffer: exact flush '
        'times for timeouts 0..90 s, given or omitted, in every form.  cache: '
        'histories as for C14 on supplied mappings.  Non-trivial: two forms, '
        'loops or options took part')
REAL = ['aiuti.asyncio.threadsafe_async_cache, buffer_until_timeout, '
        'async_background_batcher, AsyncBackgroundBatcher, BufferAsyncCalls '
        '(unmodified source)', 'asyncio loops, tasks, queues, timers']
STUB = ['threads, locks, selectors, clock', 'the decorated functions and '
        'their callers (harness)']
ASSUMPTIONS = ['forms are compared on programs without simultaneous '
               'independent events']

aio_mod = None
TOL = 1e-6


def setup():
    global aio_mod
    aio_mod = target.load('aiuti.asyncio')
    for m in (bw, bufworld, c14):
        m.setup()


# -- programs ---------------------------------------------------------------------

OPTS = ('max_batch_size', 'max_concurrent_batches', 'batch_timeout',
        'retention_timeout')
FIELD = {'max_batch_size': 'size', 'max_concurrent_batches': 'conc',
         'batch_timeout': 'bt', 'retention_timeout': 'retain'}


def jitter(rng, x):
    return None if x is None else round(x * (0.7 + 0.6 * rng.random())
                                        + rng.random() * 1e-3, 6)


def options(rng, p):
    """Non-default values one at a time or jointly; some omitted."""
    omit = [o for o in OPTS if rng.random() < rng.choice((0, .3, .75))]
    for o in omit:
        p[FIELD[o]] = bw.DEFAULTS[o]
    if 'batch_timeout' not in omit and rng.random() < .15:
        p['bt'] = rng.choice((0, 1, 2, 0.0))
    if 'max_concurrent_batches' not in omit and rng.random() < .3:
        p['conc'] = rng.choice((1, 4, 5, 6, 8))
    if 'retention_timeout' not in omit and rng.random() < .2:
        p['retain'] = rng.choice((1, 3, 60, 0))
    p['omit'] = omit


def base(rng, tier, **kw):
    p = bw.generate(rng, tier, weird_p=0, cancel_p=0, base_p=0,
                    **{'fail_p': rng.choice((0, .2)), 'dup_p':
                       rng.choice((0, .3, .7)), 'retain_p': .6, 'twin_p': 0,
                       'huge_p': 0, 'slow_p': 0, **kw})
    del p['omit']
    for s in p['scripts']:
        if s['kind'] in ('call', 'aiter', 'next'):
            s['kind'] = 'gen'
    return p


def unties(rng, p):
    t = 0.0
    seen = {}
    for c in p['calls']:
        c['spin'] = 0
        c['at'] = seen.setdefault(c['at'], jitter(rng, c['at']))
    for s in p['scripts']:
        for f in ('start', 'tail'):
            s[f] = jitter(rng, s[f])
        s['durs'] = [jitter(rng, d) for d in s['durs']]


AGAIN = {'at': 0.0, 'explicit': True, 'none': False, 'spin': 0,
         'cancel': None, 'again': False}


def generate(rng, tier):
    what = pick(rng, (4, 'forms'), (.5, 'bulk'), (4, 'loops'), (2, 'buffer'),
                (1, 'cache'))
    if what == 'forms':
        p = base(rng, tier)
        options(rng, p)
        unties(rng, p)
        styles = [0, 1, 2, 3, 4]
        rng.shuffle(styles)
        return {'what': what, 'prog': p,
                'styles': styles[:rng.randrange(2, 6)]}
    if what == 'bulk':
        p = base(rng, tier, dup_p=0, retain_p=0)
        options(rng, p)
        if 'max_batch_size' not in p['omit']:
            p['size'] = rng.choice((255, 256, 257, 300, 1000, 40))
        p['calls'] = [{**p['calls'][0], 'at': 0.0, 'spin': 0, 'key': f'k{i}'}
                      for i in range(rng.choice((100, 257, 260, 520, 600)))]
        return {'what': what, 'prog': p, 'styles': [rng.randrange(5)]}
    if what == 'loops':
        p = base(rng, tier, big_p=0)
        options(rng, p)
        phases = []
        for _ in range(pick(rng, (2, 1), (3, 2), (3, 3))):
            loops = []
            for _ in range(pick(rng, (3, 1), (2, 2), (1, 3))):
                q = base(rng, tier, big_p=0)
                loops.append({'calls': q['calls'][:8],
                              'scripts': q['scripts'][:3],
                              'main': rng.random() < .5, 'cut': round(
                                  rng.random() * 4 * max(p['bt'], .05), 4)
                              if rng.random() < .25 else None,
                              'forget': rng.random() < .4,
                              'open': rng.random() < .3})
            phases.append(loops)
        p['calls'] = p['scripts'] = []
        p['style'] = rng.choice((1, 2, 3, 4))
        return {'what': what, 'prog': p, 'phases': phases}
    if what == 'buffer':
        p = c08.generate(rng, tier)
        while not p.get('exact'):
            p = c08.generate(rng, tier)
        p['style'] = rng.randrange(5)
        p['falsy'] = False
        if rng.random() < .5:
            rescale(p, rng.choice((0, 2, 3.5, 1, 0.05)))
        p['omit'] = p['T'] == 1 and rng.random() < .5
        return {'what': what, 'prog': p}
    p = c14.generate(rng, tier)
    while p['cache'] == 'none' and not p['twin']:
        p = c14.generate(rng, tier)
    return {'what': what, 'prog': p}


def rescale(p, T):
    """The same program for another timeout."""
    U, old = T or 0.1, p['T'] or 0.1
    for a in p['actors']:
        a['start'] = round(a['start'] * U / old, 5)
        for op in a['ops']:
            if op['gap'] is not None:
                op['gap'] = round(op['gap'] * U / old, 5)
    for f in p['func']:
        if f['dur'] is not None:
            f['dur'] = round(f['dur'] * U / old, 5)
    p['T'] = T


# -- runs -------------------------------------------------------------------------

def run(sim, prog):
    what = prog['what']
    if what in ('forms', 'bulk'):
        ws = []
        sim.data['worlds'] = ws
        if not prog['styles']:
            raise InvalidProgram('no form')
        for s in prog['styles']:
            w = bw.World(sim, {**prog['prog'], 'style': s})
            ws.append(w)
            w.run()
            sim.sleep(0.5)
    elif what == 'loops':
        Loops(sim, prog).run()
    else:
        mod = bufworld if what == 'buffer' else c14
        mod.run(sim, prog['prog'])


class Loops:
    def __init__(self, sim, prog):
        self.sim = sim
        self.prog = prog
        self.worlds = []
        self.viol = []
        self.current = {}            # running loop -> world
        self.left_open = []          # loops not closed after their phase
        sim.data['loops'] = self
        sim.data['worlds'] = self.worlds
        sim.keep_loops = False

    def batch(self, items):
        loop = asyncio.get_running_loop()
        w = self.current.get(loop)
        if w is None:
            self.viol.append(('foreign-loop', f'batch {items} on a loop that '
                              'no longer makes calls'))
            raise RuntimeError('foreign loop')
        return w.batch(items)

    def run(self):
        sim, prog = self.sim, self.prog
        given = bw.World(sim, {**prog['prog'], 'mutate': None})
        if given.prog['style'] == 0 or not prog['phases']:
            raise InvalidProgram('no form')
        given.batch = self.batch
        self.fn = given.make()
        for phase in prog['phases']:
            ths, mine = [], None
            for lp in phase:
                if mine is None and lp['main']:
                    mine = lp
                else:
                    ths.append(sim.spawn(self.one, name=f'L{len(ths)}',
                                         args=(lp,)))
            if mine is not None:
                self.one(mine)
            for t in ths:
                sim.join(t)
            if any(lp['forget'] for lp in phase):
                gc.collect()
            sim.event('phase over')
        for i, (loop, w) in enumerate(self.left_open):
            # it is run again, long after
            asyncio.set_event_loop(loop)
            loop.run_until_complete(self.calm(loop, w))
            sim.count('probe.loop_used_again')
            self.one({'calls': [dict(AGAIN, key=f'again{i}')], 'scripts': [],
                      'cut': None}, loop)

    async def calm(self, loop, w):
        self.current[loop] = w
        await asyncio.sleep(self.prog['prog']['retain'] + 1)
        while w.running:
            await asyncio.sleep(10)
        del self.current[loop]

    def one(self, lp, loop=None):
        sim = self.sim
        keep = lp.get('open') and lp['main'] and lp['cut'] is None
        if loop is None:
            loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        w = bw.World(sim, {**self.prog['prog'], 'calls': lp['calls'],
                           'scripts': lp['scripts'], 'cut': lp['cut'],
                           'mutate': None}, given=self.fn)
        self.worlds.append(w)
        self.current[loop] = w
        try:
            loop.run_until_complete(w.main(loop))
            if keep and not w.viol:
                self.left_open.append((loop, w))
            else:
                shutdown(sim, loop)
        finally:
            del self.current[loop]


# -- oracles ----------------------------------------------------------------------

def trace(w):
    """What the callers and the batch function saw, relative to the start."""
    out = []
    for b in sorted(w.batches, key=lambda b: b.seq):
        out.append((b.at - w.t0, 'batch', repr(b.items)))
    for c in w.calls:
        if c.out is None:
            out.append((0, 'call', c.n, 'unanswered'))
        else:
            kind, obj = c.out
            out.append((c.ended_at - w.t0, 'call', c.n, kind,
                        type(obj).__name__, repr(obj)))
    return out


def judge_world(w):
    viol = c10.judge(w)
    if viol:
        return viol
    viol += c11.judge(w)[0]
    return viol or bw.own_outcome(w)


def check(sim, prog, outcome):
    what = prog['what']
    if what == 'buffer':
        sim.data['nontrivial'] = True
        w = sim.data.get('world')
        if w is None:
            return []
        viol = c08.check(sim, prog['prog'], outcome)
        sim.count('probe.buffer_omitted_timeout', bool(prog['prog']['omit']))
        return viol
    if what == 'cache':
        return c14.check(sim, prog['prog'], outcome)
    ws = sim.data.get('worlds', [])
    lps = sim.data.get('loops')
    viol = list(lps.viol) if lps else []
    if outcome != 'done':
        return viol + [(f'stuck-{outcome}', repr(sim.describe()))]
    for i, w in enumerate(ws):
        who = f'form {w.prog["style"]}' if lps is None else f'loop {i}'
        for kind, detail in judge_world(w):
            viol.append((kind, f'{who}: {detail}'))
    sim.data['nontrivial'] = len(ws) > 1 or what == 'bulk'
    if lps is not None:
        sim.count('probe.loops', len(ws))
        return viol
    sim.count('probe.forms', len(ws))
    for w in ws[1:]:
        a, b = trace(ws[0]), trace(w)
        for x, y in zip(a, b):
            if x[1:] != y[1:] or abs(x[0] - y[0]) > TOL:
                viol.append(('form-differs', f'form {ws[0].prog["style"]}: '
                             f'{x}; form {w.prog["style"]}: {y}'))
                break
        else:
            if len(a) != len(b):
                viol.append(('form-differs', f'{len(a)} and {len(b)} events'))
    return viol
