#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.py (run by hand after a new property is claimed)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from contracts.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        proof = bool(c['specs'])
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s quick' % i,
            'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'contract-based deductive verification of the real functions (clang AST -> VCs -> z3/cvc5), failing inputs searched on the real code'),
            'level': 'proof' if proof else 'exploration',
            'level_note': c.get('note', 'contracts: %s; every obligation is regenerated from the current headers and discharged on each run. A bounded search on the compiled real code looks for a failing input and is never counted as proof. Trusted: clang AST, extractor, symbolic executor, models of the standard library, solvers.' % ', '.join(c['specs'])),
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py setup', 'checks': checks, 'not_applicable': na}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
