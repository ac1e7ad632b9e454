"""writes MANIFEST.json: every property with a harness module is claimed"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
NOTES = json.load(open(os.path.join(R, 'tools', 'notes.json')))
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'harness', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique='symbolic execution of the current source (Python AST / Cython source / GIMPLE of the Fortran and C kernels) with z3 deciding every assertion on every feasible path; counterexamples replayed on the built code',
                           level='model_checking',
                           level_note=NOTES.get(i, 'Bounded: every input value within the stated sizes, in exact real arithmetic; rounding is outside the claim. Bounds in DESIGN.md and in the evidence.')))
    else:
        na.append(dict(property=i, reason=NOTES.get('NA ' + i, 'No check has been built for it yet.')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Exit 0: held on every path within the bounds; 1: replayed counterexample (VIOLATION line); 3: no verdict. Bounds, stubs and assumptions per property are in DESIGN.md and in the evidence files.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
