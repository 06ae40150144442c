#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
NOT_YET = "no check built yet"
REASONS = {}

checks, na = [], []
for line in open('properties.jsonl', encoding='utf-8'):
    pid = json.loads(line)['id']
    path = 'checks/%s.py' % pid.lower()
    if not os.path.exists(path) or pid in REASONS:
        na.append(dict(property=pid, reason=REASONS.get(pid, NOT_YET)))
        continue
    attrs = {}
    for n in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'NOTE'):
            attrs[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid,
                       technique=attrs.get('TECHNIQUE', 'contracts on the real functions, obligations generated from the source and discharged by z3 (pyvc)'),
                       level=attrs['LEVEL'], level_note=attrs['NOTE']))
with open('MANIFEST.json', 'w', encoding='utf-8') as f:
    json.dump(dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks, not_applicable=na), f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), "checks,", len(na), "not claimed")
