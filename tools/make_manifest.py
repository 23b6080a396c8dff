#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and the property modules present"""
import json
import os
here = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
import sys
sys.path.insert(0, os.path.join(here, 'tools'))
from levels import L as notes
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'harness', 'props', i.lower() + '.py')):
        n = notes.get(i, {})
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % i,
                       'technique': n.get('technique', 'property-based testing (Hypothesis) against an independent reference oracle'),
                       'level': 'exploration',
                       'level_note': n.get('note', 'random structured search with shrinking; counts in the evidence file')})
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks: ./check <ID> [--replay FILE]; seed from VERIF_SEED, tier from VERIF_TIER.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
