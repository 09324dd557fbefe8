#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and run/jobs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'run'))
from jobs import JOBS
props = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl')) if x.strip()]
checks, na = [], []
for p in props:
    if p not in JOBS:
        na.append(dict(property=p, reason='check not built yet'))
        continue
    j = JOBS[p]
    mods = sorted({x['module'] for x in j['jobs'] if x['kind'] == 'trace'})
    mcs = sorted({x['module'] for x in j['jobs'] if x['kind'] == 'mc'})
    tech = 'TLA+ (TLC): recorded executions checked against ' + ', '.join(mods)
    if mcs:
        tech += '; exhaustive model checking of ' + ', '.join(mcs)
    if any('script' in x for x in j['jobs']):
        tech += '; histories generated by TLC replayed into the library'
    checks.append(dict(
        property=p, quick_cmd='./check.sh ' + p, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p,
        evidence_file='evidence/%s.json' % p, technique=tech, level='model_checking',
        level_note=j.get('note', 'Every recorded event is a step of the TLA+ specification, judged by TLC; '
                   'assurance is bounded by the seeded histories explored. Trusted: the recording harness, '
                   'its fixed-point rounding (margins in the specification) and TLC.')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: the harness uses only the public API of /repo. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
