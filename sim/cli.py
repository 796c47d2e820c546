"""Command line: run a check, replay a file, prove determinism."""

import argparse
import hashlib
import json
import os
import subprocess
import sys
import time

from . import decider as dec
from . import lines, runner
from .patch import _real as real
from .shrink import shrink

VERIF = runner.VERIF


def workers_default():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def code_digest():
    from . import target
    h = hashlib.sha256()
    base = os.path.join(target.REPO, 'aiuti')
    for root, dirs, files in sorted(os.walk(base)):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith('.py'):
                h.update(f.encode())
                with open(os.path.join(root, f), 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def cmd_run(a):
    t0 = real['monotonic']()
    pid = a.property
    seed = a.seed if a.seed is not None \
        else int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    print(f'property={pid} tier={tier} seed={seed}', flush=True)
    mod = runner.load_prop(pid)
    total = a.runs or mod.BUDGET[tier]
    wall = a.wall or {'quick': 300.0, 'thorough': 3000.0}[tier]
    known = runner.known_findings(pid)
    r = runner.batch(mod, seed, tier, total, a.workers or workers_default(),
                     wall, known, first_only=not a.all)
    viol_lines = []
    unconfirmed = 0
    if a.detect:
        # for tools/mutate.py: is anything found?  No replay, no evidence
        runner.close_scratch_base()
        for v in r['violations'][:1]:
            print(f'violation at index {v["index"]}: {v["viols"][0]}')
        for b in r['bad'][:1]:
            print('HARNESS ERROR', b['index'], b['res']['outcome'],
                  str(b['res'].get('error'))[-300:])
        return 1 if r['violations'] else 2 if r['bad'] else 0
    if r['violations']:
        seen = set()
        for v in r['violations']:
            kind = v['viols'][0][0]
            if kind in seen:
                continue
            seen.add(kind)
            path = report(mod, seed, tier, v, known)
            if path is None:
                unconfirmed += 1
                continue
            viol_lines.append(path)
            if not a.all:
                break
    for kid, hits in sorted(r['known'].items()):
        k = next(x for x in known if x['id'] == kid)
        print(f'KNOWN-FINDING: property={pid} {k["what"]} '
              f'({len(hits)} runs, first index {hits[0]["index"]})')
    evidence(mod, seed, tier, total, r, real['monotonic']() - t0,
             len(viol_lines))
    st = r['stats'].d
    print(f'{st["runs"]} runs, {len(r["stats"].inter)} interleavings, '
          f'{st["sim_time"]:.0f} virtual s, outcomes {st["outcomes"]}, '
          f'{real["monotonic"]() - t0:.1f} s wall', flush=True)
    runner.close_scratch_base()
    for b in r['bad'][:3]:
        print('HARNESS ERROR at index', b['index'], b['res']['outcome'])
        print(b['res'].get('error'))
    for path in viol_lines:
        print(f'VIOLATION property={pid} replay={path}', flush=True)
    if viol_lines:
        return 1
    if r['bad'] or unconfirmed:
        if unconfirmed:
            print(f'HARNESS ERROR: {unconfirmed} violations did not replay')
        return 2
    return 0


def report(mod, seed, tier, v, known):
    """Minimise, write the replay file, confirm it in a fresh process."""
    prog, res = v['program'], v['res']
    kind = v['viols'][0][0]
    print(f'violation at index {v["index"]}: {v["viols"][0]}', flush=True)
    out = shrink(mod, prog, res['schedule'], kind)
    rec = {
        'property': mod.ID, 'seed': seed, 'tier': tier, 'index': v['index'],
        'strategy': res.get('strategy'), 'code': code_digest(),
        'original': {'program': prog, 'schedule': res['schedule'],
                     'violations': v['viols'], 'digest': res['digest']},
    }
    if out is None:
        print('the recorded run did not reproduce; not reported')
        path = None
        rec['unconfirmed'] = True
    else:
        p, s, best, tries = out
        rec.update(kind=kind, program=p, schedule=s,
                   violations=best['violations'], digest=best['digest'],
                   interleaving=best['inter'], outcome=best['outcome'],
                   steps=best['steps'], virtual_s=best['time'],
                   log=best['log'], threads=best['state'],
                   shrink_tries=tries)
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = f'{mod.ID}-{kind}-{seed}-{v["index"]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    if rec.get('unconfirmed'):
        return None
    # a fresh process must fail the same way
    for cand in ('min', 'orig'):
        if cand == 'orig':
            o = rec['original']
            rec.update(program=o['program'], schedule=o['schedule'],
                       digest=o['digest'], violations=o['violations'],
                       minimised=False)
            rec.pop('log', None)
            rec.pop('interleaving', None)
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
        env = dict(os.environ)
        env.pop('AIUTI_SIM_BOOTED', None)
        pr = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'check.py'), 'replay', path],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
            timeout=200)
        if pr.returncode == 1:
            print(f'minimised to {len(rec["schedule"])} schedule choices; '
                  f'replays in a fresh process: '
                  f'{rec["violations"][0]}')
            return path
        print('replay in a fresh process said:',
              pr.stdout.decode(errors='replace')[-500:])
    return None


def cmd_replay(a):
    with open(a.file) as f:
        rec = json.load(f)
    mod = runner.load_prop(rec['property'])
    res = runner.run_forked(mod, rec['program'],
                            dec.Replay(rec['schedule']), want_log=True)
    runner.close_scratch_base()
    if a.verbose:
        for e in res.get('log', []):
            print(*e)
        for s in res.get('state', []):
            print(s)
    print('outcome', res['outcome'], res.get('error', ''))
    viols = res.get('violations') or []
    for v in viols:
        print('violation:', *v)
    kinds = {v[0] for v in rec['violations']}
    if not any(v[0] in kinds for v in viols):
        print('NOT REPRODUCED')
        return 0 if res['outcome'] not in runner.BAD else 2
    exact = res['digest'] == rec['digest']
    print('exact event log' if exact else
          f'event log differs (code {rec["code"]} vs {code_digest()})')
    print(f'VIOLATION property={rec["property"]} replay={a.file}')
    return 1


def cmd_one(a):
    seed = a.seed if a.seed is not None \
        else int(os.environ.get('VERIF_SEED', '1'))
    mod = runner.load_prop(a.property)
    prog = runner.make_program(mod, seed, a.index, a.tier or 'quick')
    print(json.dumps(prog, indent=1))
    d = runner.make_decider(mod, seed, a.index, prog)
    res = runner.run_forked(mod, prog, d, want_log=True)
    runner.close_scratch_base()
    for e in res.pop('log', []):
        print(*e)
    for s in res.pop('state', []):
        print(s)
    res.pop('schedule', None)
    print(json.dumps(res, indent=1) if 'error' not in res else res['error'])
    return 0


def cmd_determinism(a):
    """Same seeds: other worker counts, another hash seed, fresh processes."""
    import pathlib
    props = a.properties or sorted(
        p.stem.upper() for p in
        pathlib.Path(VERIF, 'props').glob('c[0-9][0-9].py'))
    bad = 0
    for pid in props:
        outs = []
        for workers, hs, start in ((8, '0', 0), (3, '0', 0), (8, '4711', 0),
                                   (5, '99', 0)):
            env = dict(os.environ)
            env.pop('AIUTI_SIM_BOOTED', None)
            env['AIUTI_SIM_HASHSEED'] = hs
            env['AIUTI_SIM_DIGESTS'] = '1'
            pr = subprocess.run(
                [sys.executable, os.path.join(VERIF, 'check.py'), 'digests',
                 pid, '--runs', str(a.runs or 400), '--workers', str(workers)],
                stdout=subprocess.PIPE, env=env)
            outs.append(json.loads(pr.stdout))
        diff = [i for i in outs[0]
                if any(o.get(i) != outs[0][i] for o in outs[1:])]
        print(f'{pid}: {len(outs[0])} seeds x {len(outs)} executions, '
              f'{len(diff)} diverged {diff[:10]}', flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def cmd_digests(a):
    mod = runner.load_prop(a.property)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    r = runner.batch(mod, seed, 'quick', a.runs, a.workers, 600,
                     first_only=False)
    runner.close_scratch_base()
    print(json.dumps(r['digests']))
    return 0


def cmd_selftest(a):
    """Set-up: the simulator works here and the code under test loads."""
    from . import kernel, target
    from .aio import SimLoop
    import asyncio
    for name in ('asyncio', 'filelock', 'itertools', 'parsing'):
        target.load('aiuti.' + name)
    sim = kernel.Sim(dec.Decider(), finish=lambda *x: None)
    got = []

    def main():
        async def co():
            await asyncio.sleep(3600)
            return asyncio.get_running_loop().time()
        loop = asyncio.new_event_loop()
        assert isinstance(loop, SimLoop)
        t0 = loop.time()
        got.append(loop.run_until_complete(co()) - t0)
        loop.close()

    sim.run_in_calling_thread(main)
    assert sim.outcome == 'done' and abs(got[0] - 3600) < 1e-6, \
        (sim.outcome, got, sim.finish_info)
    print('simulator ok:', sys.version.split()[0],
          len(lines.lines), 'switch-point lines')
    return 0


def evidence(mod, seed, tier, total, r, wall, nviol):
    st = r['stats']
    d = st.d
    per_hour = d['runs'] / max(r['wall'], 1e-9) * 3600
    faults = {k: {'fired': n, 'runs': d['runs_with'][k]}
              for k, n in sorted(d['counters'].items())
              if k.startswith('fault.')}
    others = {k: n for k, n in sorted(d['counters'].items())
              if not k.startswith('fault.')}
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': d['runs'],
            'distinct_nontrivial': len(st.distinct),
            'rule': mod.RULE,
            'samples': r['samples'][:3],
            'simulated_runs_planned': total,
            'runs_per_hour': round(per_hour),
            'seeds_per_hour': round(per_hour),
            'simulated_seconds': round(d['sim_time'], 3),
            'scheduler_steps': d['steps'],
            'context_switches': d['switches'],
            'max_steps_in_a_run': d['max_steps'],
            'distinct_interleavings': len(st.inter),
            'distinct_interleavings_measure':
                'hash of the sequence (thread, source lines it had executed, '
                'location) -> next thread over all context switches of a run',
            'distinct_event_histories': len(st.traces),
            'faults_injected': faults,
            'probes': others,
            'strategies': d['strategies'],
            'outcomes': d['outcomes'],
            'stopped_by_wall_cap': r['capped'],
            'stopped_early_on_violation': r['interrupted'],
            'components_real': mod.REAL,
            'components_stub': mod.STUB,
            'known_findings_seen': {k: len(v) for k, v in r['known'].items()},
            'switch_point_lines': len(lines.lines),
            'code_digest': code_digest(),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{mod.ID}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


def main(argv):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    p = sub.add_parser('run')
    p.add_argument('property')
    p.add_argument('--tier')
    p.add_argument('--runs', type=int)
    p.add_argument('--seed', type=int)
    p.add_argument('--wall', type=float)
    p.add_argument('--workers', type=int)
    p.add_argument('--all', action='store_true',
                   help='do not stop at the first violation')
    p.add_argument('--detect', action='store_true',
                   help='only look: no replay file, no evidence')
    p.set_defaults(fn=cmd_run)
    p = sub.add_parser('replay')
    p.add_argument('file')
    p.add_argument('-v', '--verbose', action='store_true')
    p.set_defaults(fn=cmd_replay)
    p = sub.add_parser('one')
    p.add_argument('property')
    p.add_argument('index', type=int)
    p.add_argument('--tier')
    p.add_argument('--seed', type=int)
    p.set_defaults(fn=cmd_one)
    p = sub.add_parser('determinism')
    p.add_argument('properties', nargs='*')
    p.add_argument('--runs', type=int)
    p.set_defaults(fn=cmd_determinism)
    p = sub.add_parser('digests')
    p.add_argument('property')
    p.add_argument('--runs', type=int, default=400)
    p.add_argument('--workers', type=int, default=8)
    p.set_defaults(fn=cmd_digests)
    p = sub.add_parser('selftest')
    p.set_defaults(fn=cmd_selftest)
    a = ap.parse_args(argv)
    return a.fn(a)
