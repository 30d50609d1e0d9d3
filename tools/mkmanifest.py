"""Writes /verif/MANIFEST.json: one check per checks/c??.py present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]

NOTE_DEF = ('Solver-decided for all values within the bounds stated in the '
            'evidence file (sizes, numbers of layers/points); floats are '
            'treated as mathematical reals.')
NOTES = {}
NA = {
    'C34': 'The accuracy of a numerical transform of an arbitrary smooth '
           'kernel is a statement about infinite integrals of '
           'transcendental functions against tabulated filter weights; it '
           'has no finite SMT encoding. What the transforms compute (filter '
           'sums, quadrature sums, extrapolation) is decided by C16, C17, '
           'C18 and C32.',
}
TECH = ('bounded symbolic execution of the real Python functions, '
        'SMT (z3) verdict per obligation, counterexamples replayed')

checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower()+'.py')):
        checks.append(dict(
            property=i, quick_cmd=f'./check.sh {i}',
            thorough_cmd=f'./check.sh {i} --thorough',
            technique=TECH, level='other',
            level_note=NOTES.get(i, NOTE_DEF)))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na], 'not claimed')
