#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{V}/tools')
from props import PROPS, NOT_APPLICABLE
checks = []
for p, i in sorted(PROPS.items()):
    c = {'property': p, 'quick_cmd': f'python3 tools/check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tools/check.py {p}',
         'technique': i.get('technique', 'contract-based deductive verification (Verus) of the extracted code'), 'level': i['level'],
         'level_note': i['note']}
    if i['level'] == 'proof':
        c['theorems'] = i['theorems']
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'cargo build --offline -q --manifest-path extract/Cargo.toml && cargo build --offline -q --manifest-path harness/Cargo.toml && cargo build --offline -q --manifest-path rocks/Cargo.toml',
     'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())]}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
