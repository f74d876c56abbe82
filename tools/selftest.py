"""setup: the engine loads /repo's source and decides two toy obligations the right way"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import core, harness, loader

core.z3mod()


def good(h):
    x = h.real('x')
    h.eq((x + 1) * (x - 1), x * x - 1, 'identity')
    h.le(2 * x, x * x + 1, 'inequality')


def bad(h):
    x = h.real('x')
    h.eq(h.np.abs(h.arr([x], float))[0], x, 'abs')


r = harness.run_symbolic(harness.Inst('good', good))
assert r['status'] == 'ok' and not r['violations'] and r['obligations'] >= 2, r
r = harness.run_symbolic(harness.Inst('bad', bad))
assert r['violations'], r
loader.get().load('mesh')
print('ok', loader.REPO)
