#!/usr/bin/env python3
# Source of MANIFEST.json (run after changing what is claimed).
import json
ASM = 'contract-based deductive verification of the assembled machine code (own symbolic executor, inferred loop invariants, z3/canonical-form back ends)'
TECH = {}
for i in ('C01', 'C02', 'C03', 'C04', 'C05'): TECH[i] = (ASM, 'All obligations of the routine contracts are discharged for every block count and every input content; assumes the instruction semantics in vasm/insns.py, non-overlapping buffers and the System V entry conditions.')
exec(open('/verif/tools/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in TECH:
        t, n = TECH[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3-vt check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'proof', 'level_note': n})
    else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
m['notes'] = 'See DESIGN.md. No hooks are used: the checks extract the code from /repo on every run.'
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
