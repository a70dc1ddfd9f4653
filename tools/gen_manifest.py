#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for i in ids:
    p = PROPS.get(i)
    if p and p.get('claim', True):
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'env VERIF_TIER=thorough python3 check.py {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': p['technique'], 'level': 'proof', 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'contracts for this property are not finished')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(f'{V}/MANIFEST.json', 'w'), indent=1)
