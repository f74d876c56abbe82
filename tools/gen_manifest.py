"""writes MANIFEST.json: one check per module in checks/, the other properties under not_applicable"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

NA = {
    'C34': 'the encoding is over exact reals: a floating-point encoding of these sums, products, square roots and '
           'trigonometric functions through numpy (whose summation order and fused operations are not fixed) is out of '
           'reach of the solvers here, and a bound on rounding would not be a decision about the code as it runs',
    'C35': 'drawing, events and mesh quality are computed by compiled VTK code that cannot be encoded here; the part '
           'that belongs to the repository, the data handed to VTK, is decided in C29',
}

TECH = 'symbolic execution of the Python source on exact real/integer terms, obligations decided by Z3, ' \
       'counterexamples replayed on the real code'
NOTE = 'Holds for every input value within the stated bounds (see bounds/outside in the evidence) in exact real ' \
       'arithmetic; trusted: the symbolic model of numpy in symx/npshim.py (cross-checked by replaying one witness per ' \
       'explored path on the real code), Z3, and the oracle written in %s. Not covered: floating-point rounding.'

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    f = os.path.join('checks', i.lower() + '.py')
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif not os.path.isfile(os.path.join(HERE, f)):
        na.append(dict(property=i, reason='check not built yet'))
    else:
        m = importlib.import_module('checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i,
                           thorough_cmd='./check %s --tier thorough' % i,
                           technique=getattr(m, 'TECHNIQUE', TECH), level='model_checking',
                           level_note=getattr(m, 'NOTE', NOTE % f)))
out = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/selftest.py', checks=checks, not_applicable=na,
           notes='no hooks are needed in /repo: the checks load its source through symx/loader.py')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
