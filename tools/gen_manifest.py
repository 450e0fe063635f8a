"""Writes MANIFEST.json: claimed = the properties that have props/cxx.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'C33': 'A coverage probability over an infinite horizon is a statement about the limiting law of the data, not about '
           'the values the functions compute; contracts over the code decide the formulas (C11, C12, C15, C32), not the theorem.',
}
PENDING = 'Contracts for the functions behind this property are not finished; not claimed.'
LEVELS = {}
NOTES = {}
BASE = ('Every obligation of the contracts is generated from the current source by symbolic execution of the real functions '
        'over symbolic sizes and contents and discharged by z3/cvc5; floats are extended reals; library functions are used '
        'through stated contracts; a seeded replay on the real code looks for failing inputs and is not counted as proved.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  f = os.path.join(HERE, 'props', i.lower() + '.py')
  if i not in NA and os.path.exists(f) and '# WIP' not in open(f).read()[:200]:
    src = open(f).read()
    lv = 'proof'
    checks.append({
        'property': i, 'quick_cmd': f'python3-vt check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3-vt check.py {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'contract-based deductive verification of the real Python source (symbolic execution to SMT obligations)',
        'level': LEVELS.get(i, lv), 'level_note': NOTES.get(i, BASE)})
  else:
    na.append({'property': i, 'reason': NA.get(i, PENDING)})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')) if os.path.exists('/root/.vp/MANIFEST.schema.json') else {})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print([c['property'] for c in checks])
