#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties below."""
import json
CLAIMED = json.load(open('/verif/tools/claims.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p['id'])
    if c is None or 'na' in c:
        na.append({'property': p['id'], 'reason': (c or {}).get('na', 'contracts for the functions it depends on are not written yet')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': c.get('technique', 'contract-based deductive verification of the Go SSA form (govc; z3, cvc5), with a bounded search for failing inputs on the real code'),
        'level': 'proof',
        'level_note': c['note'],
    })
json.dump({'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'govc in /verif/govc generates the obligations from /repo on every run; contracts are in /verif/contracts, bounded searches in /verif/harness'},
          open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
