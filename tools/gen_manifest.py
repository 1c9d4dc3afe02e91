"""MANIFEST.json from the list of claimed checks"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = ('symbolic execution of the real Python code on symbolic numbers, '
        'obligations decided by z3 for all values within stated bounds')
NOTE = ('Every obligation is discharged by z3 for all input values within the '
        'bounds in evidence/ (sizes, geometries and ranges are stated there); '
        'floats are treated as reals, eigh is replaced by its contract, and '
        'each explored path is replayed on the unpatched code to validate the '
        'encoding. Sizes outside the bounds are not covered.')
claimed = {}
for f in sorted(os.listdir(os.path.join(ROOT, 'props'))):
    if f[0] == 'C' and f.endswith('.py'):
        claimed[f[:-3]] = None
TECH_OVER = {
    'C02': 'symbolic execution of the Python code and of the LLVM IR of the C '
           'extension; equality of their results and absence of data races '
           'decided by z3',
}
NA = {
    'C29': 'The eigenpairs come from compiled LAPACK (zheevd); its '
           'floating-point accuracy cannot be encoded for an SMT solver and '
           'the library is outside this repository. Other checks use its '
           'contract.',
}
props = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in claimed:
        checks.append({
            'property': p,
            'quick_cmd': f'{PY} -m vf.run {p} --tier quick',
            'thorough_cmd': f'{PY} -m vf.run {p} --tier thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': TECH_OVER.get(p, TECH),
            'level': 'model_checking',
            'level_note': NOTE})
    else:
        na.append({'property': p, 'reason': NA.get(
            p, 'No check is built for it yet.')})
m = {'version': 1,
     'setup_cmd': f'{PY} -c "import vf.run, vf.engine"',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
