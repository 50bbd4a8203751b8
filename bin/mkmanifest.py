#!/usr/bin/env python3-vt
"""mkmanifest.py: writes MANIFEST.json from properties.jsonl and engine/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if P is None or i in props.NOT_APPLICABLE:
        na.append({'property': i, 'reason': props.NOT_APPLICABLE[i]})
        continue
    if P.level == 'proof':
        tech = 'deductive verification: contracts on the real functions, every obligation discharged from the current source'
        note = ('Every obligation of the contracts of %s and of the contracts they use is discharged, for all inputs, from the go/ssa form of the current source. '
                'The same contracts are also run on concrete inputs (bounded, not counted as proved) to give failing inputs.' % ', '.join(P.funcs + ['lemma ' + l for l in P.lemmas]))
    else:
        tech = 'contracts on the real functions; part discharged deductively, part checked at run time within bounds' if P.funcs or P.lemmas else \
            'bounded run-time check of the contracts of the real functions (stand-in, not a proof)'
        note = ('Proved for all inputs: %s. ' % ', '.join(P.funcs + ['lemma ' + l for l in P.lemmas]) if P.funcs or P.lemmas else '') + \
            'Bounded, not proved: %s (contracts evaluated on the real code for small sizes exhaustively and random ones until the time is up).' % P.bounded
    note += ' Trusted: field operations of gurvy, mathematical int, Go compiler and go/ssa, /verif/engine, z3.' + (' ' + P.note if P.note else '')
    checks.append({'property': i, 'quick_cmd': 'python3-vt bin/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt bin/check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': P.level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks read the go/ssa form of the unmodified source. Contracts are in contracts/*.spec.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json'))) if os.path.exists('/root/.vp/MANIFEST.schema.json') else None
print(len(checks), 'checks', len(na), 'not applicable')
