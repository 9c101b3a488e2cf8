#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl, proofs/ and tools/na.json (reasons for properties not claimed)
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(V + '/tools/na.json'))
claimed = {f.split('_')[0] for f in os.listdir(V + '/proofs') if f.endswith('.cpp')}
notes = json.load(open(V + '/tools/notes.json'))
checks, nas = [], []
for l in open(V + '/properties.jsonl'):
    i = json.loads(l)['id']
    if i in claimed and i not in na.get('withheld', {}):
        checks.append(dict(property=i, quick_cmd='./check.py %s' % i, thorough_cmd='VERIF_TIER=thorough ./check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification: contracts on the compiled real functions, VCs generated from LLVM IR of the current source, discharged by z3/cvc5',
                           level=notes['levels'].get(i, 'proof'), level_note=notes.get(i) or notes['bounded' if i in notes['levels'] else 'default']))
    else:
        nas.append(dict(property=i, reason=na.get('withheld', {}).get(i) or na.get(i) or na['default']))
json.dump(dict(version=1, setup_cmd='./check.py --setup', checks=checks, not_applicable=nas,
               notes='No hooks in /repo. Known and fixed findings: known-findings.json. Design: DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(nas), 'not applicable')
