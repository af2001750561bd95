#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per props/cXX.py, the rest not applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C25': 'Convergence of scipy.optimize.least_squares is a statement about a large iterative floating-point solver whose trip count depends on the data; it cannot be encoded for an SMT solver within reach.',
    'C26': 'A statistical statement over random draws; there is no assertion over all values for a solver to decide.',
}
TODO = 'check not finished'
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % i,
            thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
            technique='bounded symbolic execution of the real code with z3 deciding every branch and assertion; counterexamples replayed',
            level='model_checking',
            level_note='Holds for every value within the bounds in the evidence file on every explored path; trusts z3, the installed '
                       'pandas/numpy, the symbolic numpy/pandas patches (cross-checked by replaying sampled paths) and the listed stubs; '
                       'reals stand for doubles unless stated.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
