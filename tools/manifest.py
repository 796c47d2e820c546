#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))

checks, na = [], []
props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
for pid in props:
    note = NOTES['claims'].get(pid)
    if note and os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': f'/opt/venv/bin/python check.py run {pid} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python check.py run {pid} --tier thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'deterministic simulation with fault injection: '
                         + note['technique'],
            'level': note.get('level', 'exploration'),
            'level_note': note['note'],
        })
    else:
        na.append({'property': pid,
                   'reason': NOTES['na'].get(pid, 'not built yet')})
json.dump({
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python check.py selftest',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: every seam is installed at import time by '
             '/verif/sim before the code under test is loaded. known findings '
             'and repairs: known_findings.json',
}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
