#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness modules and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
NOTE = ('Exhaustive within the stated bounds when the evidence says so: every feasible path of the real code under symbolic inputs is followed and each '
        'obligation is discharged by z3; outside the bounds nothing is claimed. Trusts the symbolic executor (symx), which is compared with plain runs of the '
        'code on sampled paths, and z3. Violations are only reported when the concrete replay on the real code fails too.')
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    c = d['id']
    if c in NA:
        continue
    m = importlib.import_module('harness.' + c.lower())
    checks.append(dict(property=c, quick_cmd='python3-vt check.py %s --tier quick' % c, thorough_cmd='python3-vt check.py %s --tier thorough' % c,
                       technique=getattr(m, 'TECHNIQUE', 'symbolic execution of the real Python code, path conditions and assertions decided by z3, counterexamples replayed'),
                       level=getattr(m, 'LEVEL', 'model_checking'), level_note=getattr(m, 'LEVEL_NOTE', '') + NOTE))
out = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
           notes='No hooks are needed in /repo: the executor instruments the sources as it imports them.')
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
