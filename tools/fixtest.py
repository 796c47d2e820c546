#!/usr/bin/env python3
"""fixtest.py [COMMIT...]: revert each fix in a scratch copy; its check must
report a violation there."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
    if sys.argv[1:] and f['commit'] not in sys.argv[1:]:
        continue
    tmp = tempfile.mkdtemp(prefix='fix-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        g = ['git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x@x']
        p = subprocess.run(g + ['revert', '--no-commit', f['commit']],
                           capture_output=True, text=True)
        if p.returncode:
            print(f['commit'], f['property'], 'REVERT CONFLICT', flush=True)
            continue
        t0 = time.time()
        p = subprocess.run(['/opt/venv/bin/python', os.path.join(HERE, 'check.py'), 'run',
                            f['property'], '--tier', 'quick'], cwd=HERE,
                           capture_output=True, text=True,
                           env=dict(os.environ, AIUTI_SIM_REPO=repo, VERIF_SEED='1'))
        line = [x for x in p.stdout.splitlines() if x.startswith('violation at')]
        print(f['commit'], f['property'], 'CAUGHT' if p.returncode == 1 else
              f'*** MISSED rc={p.returncode}', f'{time.time() - t0:.0f}s',
              (line or [p.stdout[-200:]])[0][:120], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
