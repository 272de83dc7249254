#!/usr/bin/env python3
"""Rewrite MANIFEST.json: the claimed properties and, for the others of properties.jsonl, the reason."""
import json
CLAIM = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26'.split()
NOTE = {}
WHY = 'contracts for this property are not written yet'
LEVEL = {}
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl') if l.strip()]
TECH = 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the clang AST of /repo on every run and discharged by z3'
DEF = 'unbounded in all bounds, lengths, indexes and data; numbers of dimensions enumerated; integers and reals mathematical; failed obligations are replayed against the real code by harness/'
m = dict(version=1, setup_cmd='true', checks=[dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='python3-vt check.py %s --thorough' % p, evidence_file='evidence/%s.json' % p,
         technique=TECH, level=LEVEL.get(p, 'proof'), level_note=NOTE.get(p, DEF)) for p in CLAIM],
         not_applicable=[dict(property=p, reason=WHY) for p in props if p not in CLAIM])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
