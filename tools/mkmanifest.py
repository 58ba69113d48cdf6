#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in nfv/checks and properties.jsonl."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'nfv', 'checks', prop.lower() + '.py')):
        note = NOTES.get(prop, {})
        checks.append(dict(
            property=prop,
            quick_cmd='/opt/venv/bin/python check.py {} --tier quick'.format(prop),
            thorough_cmd='/opt/venv/bin/python check.py {} --tier thorough'.format(prop),
            evidence_file='evidence/{}.json'.format(prop),
            technique=note.get('technique', 'TLA+ specification model checked with TLC; executions of the real code judged against it by TLC'),
            level='model_checking',
            level_note=note.get('note', 'TLC exhausts the specification within small constants; the code is covered on the executions recorded in the run. Trusted: the recording harness, TLC.'),
        ))
    else:
        missing.append(dict(property=prop, reason='check not built yet'))
manifest = dict(
    version=1, setup_cmd='/opt/venv/bin/python setup_check.py', checks=checks, not_applicable=missing,
    notes='No hooks in /repo: all checks observe public behaviour (gap function calls, results, save files).'
)
json.dump(manifest, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
