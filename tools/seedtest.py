#!/usr/bin/env python3
"""seedtest.py [--no-tests] [--check-only] ID...: try planted bugs.

For each seeded/<ID>: copies /repo to a scratch directory, applies the patch,
runs the stable tests and the demo there (and the demo on the unpatched copy),
then the property's quick check against the copy.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
flags = {a for a in args if a.startswith('--')}
ids = [a for a in args if not a.startswith('--')] or sorted(
    os.listdir(os.path.join(HERE, 'seeded')))
stable = json.load(open('/opt/vp/BASELINE.json'))
res = {}
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-')
    out = []
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        demo = os.path.join(tmp, 'demo')
        shutil.copytree(d, demo)
        for f in ('patch.diff', 'meta.json'):
            os.unlink(os.path.join(demo, f))
        env = dict(os.environ)

        def run_demo():
            t = time.time()
            try:
                # the demo runs with cwd = the (copied) repository
                p = subprocess.run(['bash', os.path.join(demo, 'demo.sh')],
                                   cwd=repo, capture_output=True, text=True,
                                   timeout=300, env=dict(env, PYTHONPATH=repo))
                return p.returncode, round(time.time() - t, 1), p.stderr[-300:]
            except subprocess.TimeoutExpired:
                return 'timeout', 300, ''
        if '--check-only' not in flags:
            r = run_demo()
            out.append(f'demo clean {r[0]} ({r[1]}s)' + ('' if r[0] == 0 else ' !!! ' + r[2]))
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')],
                           cwd=repo, capture_output=True, text=True)
        if p.returncode:
            out.append('!!! patch does not apply: ' + p.stderr[:200])
        if '--check-only' not in flags:
            r = run_demo()
            out.append(f'demo patched {r[0]} ({r[1]}s)' + ('' if r[0] not in (0, 'timeout') else ' !!!'))
        if not flags & {'--no-tests', '--check-only'}:
            t = subprocess.run(
                ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                 'no:cacheprovider', '--deselect',
                 'aiuti/asyncio.py::aiuti.asyncio.to_async_iter', '--deselect',
                 'aiuti/asyncio.py::aiuti.asyncio.to_sync_iter'],
                cwd=repo, capture_output=True, text=True, env=dict(env, PYTHONPATH=repo))
            out.append('tests ' + t.stdout.strip().splitlines()[-1].strip('= ')
                       + ('' if t.returncode == 0 else ' !!!'))
        t0 = time.time()
        p = subprocess.run([sys.executable if 'venv' in sys.executable else
                            '/opt/venv/bin/python', os.path.join(HERE, 'check.py'),
                            'run', meta['property'], '--tier', 'quick'],
                           cwd=HERE, capture_output=True, text=True,
                           env=dict(env, AIUTI_SIM_REPO=repo, VERIF_SEED='1'))
        caught = p.returncode == 1 and f'VIOLATION property={meta["property"]} ' in p.stdout
        line = [x for x in p.stdout.splitlines() if x.startswith('violation at')]
        out.append(('CAUGHT ' if caught else f'*** MISSED rc={p.returncode} ')
                   + f'{time.time() - t0:.0f}s ' + (line[0][:110] if line else p.stdout[-200:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(f'{i} [{meta["property"]}]: ' + '; '.join(out), flush=True)
