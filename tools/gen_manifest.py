# writes /verif/MANIFEST.json from the properties that have contracts (claimed) -- run after adding a property
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(V, 'tools', 'claimed.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p['id'])
    if c is None or 'na' in c:
        na.append({'property': p['id'], 'reason': (c or {}).get('na', 'no check built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'technique': c.get('technique', 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the current source (pydv), discharged by z3/cvc5'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
