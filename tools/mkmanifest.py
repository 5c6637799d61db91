#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
try:
    from engine.registry import CHECKS, NOT_APPLICABLE
except ImportError:
    CHECKS, NOT_APPLICABLE = {}, {}
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c['technique'], 'level': c.get('level', 'other'),
            'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: the analyser reads the unmodified sources.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
