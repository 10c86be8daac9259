#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry: every registered property is claimed, the rest are listed as not (yet) claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vc')
from registry import REG, LEVEL_NOTES, NOT_CLAIMED
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
COMMON = ('Contracts on the real functions, discharged function by function from the clang AST of the current sources by an own verification-condition generator '
          '(z3 and exact rational normal forms) for all inputs and iterations; reals instead of doubles; library functions (std, xtensor) by trusted contracts. ')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p, 'quick_cmd': './check.py %s quick' % p, 'thorough_cmd': './check.py %s thorough' % p,
                 'technique': 'deductive verification: contracts and loop invariants on the real code, SMT-discharged obligations',
                 'level': 'proof', 'level_note': COMMON + LEVEL_NOTES.get(p, '')} for p in props if p in REG],
     'not_applicable': [{'property': p, 'reason': NOT_CLAIMED.get(p, 'no check built yet')} for p in props if p not in REG],
     'notes': 'hooks: none; /repo carries only fix: commits.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
