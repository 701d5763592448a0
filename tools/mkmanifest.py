"""Write MANIFEST.json from the contract modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        n = NOTES.get(i, {})
        cmd = f'/opt/venv/bin/python /verif/check.py {i}'
        checks.append(dict(property=i, quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                           technique='contract-based deductive verification of the extracted functions '
                                     '(exact symbolic interpretation of the traced jaxpr; normal form and SMT back ends)',
                           level='proof', level_note=n.get('note', 'instances: every value, fixed small dimensions'),
                           evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'check not built yet')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -c "import jax, sympy, flax, cyjax" && z3 --version && cvc5 --version | head -1',
         checks=checks, not_applicable=na,
         notes='Findings are in KNOWN_FINDINGS.md; the method, its limits and what extraction drops are in DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
