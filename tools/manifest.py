#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the contract modules present"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    n = notes.get(p)
    if n and os.path.exists(os.path.join(root, 'contracts', p + '.py')):
        checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check %s --thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'contract-based deductive verification: contracts on the real C++ functions, verification conditions generated from the clang AST of the current tree, discharged by z3/cvc5/polynomial identity; failing obligations replayed by a concrete harness',
                       'level': 'proof', 'level_note': n})
    else:
        na.append({'property': p, 'reason': 'not yet under contract in this version of the framework'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are checked against the functions extracted from /repo/src on every run.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
