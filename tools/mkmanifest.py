#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vlib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vlib')
from registry import CHECKS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    c = CHECKS.get(i)
    if not c:
        na.append(dict(property=i, reason='no check built yet'))
        continue
    checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i, thorough_cmd='bin/check %s --tier thorough' % i,
                       technique=c['technique'], level=c['level'], level_note=c['note']))
m = dict(version=1, setup_cmd='python3 vlib/setup.py', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks were needed: every check uses the public interface', source_commits=[]),
         notes='See DESIGN.md. Known findings and fixed defects: known_findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
