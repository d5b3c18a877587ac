#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B check.py'
NA = {}
try:
    NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
except FileNotFoundError:
    pass
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness', pid.lower() + '.py')) and pid not in NA:
        checks.append(dict(
            property=pid, quick_cmd=f'{PY} {pid} --tier quick', thorough_cmd=f'{PY} {pid} --tier thorough',
            evidence_file=f'evidence/{pid}.json',
            technique='symbolic execution of the real Python code (NumPy/SciPy calls on symbolic arrays) with z3 deciding '
                      'every assertion; counterexamples replayed on the unpatched code',
            level='model_checking',
            level_note='holds for every value of the symbolic inputs within the bounds written to the evidence file '
                       '(array sizes, steps, value ranges); trusts z3, the NumPy/SciPy model of engine/shim.py (cross-checked '
                       'by replaying one model of each path on the unpatched code) and real arithmetic in place of floating '
                       'point unless the evidence says otherwise'))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); from engine import load; load.prepare(); import z3; print(z3.get_version_string())"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo. Repairs of genuine defects are "fix:" commits listed in known_findings.json.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
