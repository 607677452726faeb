#!/usr/bin/env python3-vt
"""write properties.jsonl and MANIFEST.json from tools/properties_src.py and contracts/props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from tools.properties_src import P
from contracts.props import PROPS, NA
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if i in PROPS:
        x = PROPS[i]
        checks.append({'property': i, 'quick_cmd': './check %s' % i,
                       'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': x.get('technique', 'contract-based deductive verification: per-function contracts on clang IR of the real source, discharged by an equational normaliser and z3'),
                       'level': x.get('level', 'proof'),
                       'level_note': (('Bounded, not proved: %s (%s). ' % (', '.join(x['bounded']), x['bound'])) if x.get('bounded') else '') + x.get('note', 'Every function listed is verified against its contract for all inputs over the reals; property lemmas are proved over the contracts. Machine floating point is treated as real arithmetic; libm, the IR extraction and the normaliser are trusted; a native differential run cross-checks extraction.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh',
           'checks': checks, 'not_applicable': na,
           'notes': 'Contracts: contracts/*.py; engine: engine/*.py; see DESIGN.md.'}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
