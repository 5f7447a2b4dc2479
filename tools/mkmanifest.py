#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a specification; the others are listed as not applicable."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
PENDING = 'The contracts for this property are not finished, so it is not claimed.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(H + '/specs/%s.py' % i.lower()) and os.path.exists(H + '/harness/%s.cpp' % i.lower()):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
            'technique': 'contract-based deductive verification: contracts over the clang AST of the current headers, inferred loop invariants, obligations discharged by z3/cvc5; refuted obligations replayed on the real code',
            'level': 'proof',
            'level_note': 'Every obligation generated from the current headers must be discharged for all inputs (unbounded loops and buffers). Assumes the listed library contracts and abstract IEEE-754 laws (evidence: trusted_base, assumptions). A function outside the verified subset is reported as undecided and only covered by the bounded replay driver.',
        })
    else:
        na.append({'property': i, 'reason': PENDING})
m = {'version': 1, 'setup_cmd': 'python3-vt -m engine.setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the verified text is the unmodified header code. See DESIGN.md.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
