"""shimtest.py [REGEX]: expressions a maintainer could use, executed symbolically and on numpy, compared on witnesses.

A is 4 x 3 and B 3 x 3 (reals), u, v are vectors of 3, I is 5 x 4 (faces: constants), J a vector of integers, s a real."""
import os, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SRC = os.environ.get('SYMX_REPO', '/repo')
tmp = tempfile.mkdtemp(prefix='shim')
shutil.copytree(os.path.join(SRC, 'meshmagick'), os.path.join(tmp, 'meshmagick'), ignore=shutil.ignore_patterns('tests', '__pycache__'))
os.environ['SYMX_REPO'] = tmp
EXPR = [e for e in open(os.path.join(HERE, 'tools', 'shim_expressions.txt')).read().split('\n') if e.strip() and e[0] != '#']
if len(sys.argv) > 1:
    EXPR = [e for e in EXPR if re.search(sys.argv[1], e)]
src = ['import numpy as np', 'import math, itertools, functools, operator, copy', 'from math import *', 'from numpy import linalg as la',
       'from collections import defaultdict, Counter, OrderedDict, deque, namedtuple', 'from itertools import chain, product, combinations']
for k, e in enumerate(EXPR):
    src.append('def f%d(A, B, u, v, I, J, s):' % k)
    if ';' in e or e.startswith('return '):
        src += ['    ' + x.strip() if False else '    ' + x for x in e.split('; ')]
    else:
        src.append('    return ' + e)
open(os.path.join(tmp, 'meshmagick', 'zz.py'), 'w').write('\n'.join(src) + '\n')
from symx import core, harness, loader
core.z3mod()


def flat(x):
    import numpy as np
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, np.ndarray):
        return [z for y in x.reshape(-1) for z in flat(y)] if x.ndim else flat(x.item())
    if isinstance(x, (bool, np.bool_)):
        return [int(x)]
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in flat(x[k])]
    if isinstance(x, set):
        return [z for k in sorted(x) for z in flat(k)]
    return [x]


def case(h, k):
    A = h.arr([[h.real('a%d%d' % (i, j), -5 + 2 * i + j, -4 + 2 * i + j) for j in range(3)] for i in range(4)], float)
    B = h.arr([[h.real('b%d%d' % (i, j), 1 if i == j else 0, 2 if i == j else '0.2') for j in range(3)] for i in range(3)], float)
    u = h.arr([h.real('u%d' % i, 1 + i, 2 + i) for i in range(3)], float)
    v = h.arr([h.real('v%d' % i, -3 + i, -2 + i) for i in range(3)], float)
    I = h.arr([[0, 1, 2, 0], [1, 2, 3, 0], [3, 1, 0, 3], [2, 0, 1, 3], [0, 2, 3, 0]], int)
    J = h.arr([3, 1, 2, 1, 0], int)
    s = h.real('s', '0.25', '0.75')
    r = flat(getattr(h.mod('zz'), 'f%d' % k)(A, B, u, v, I, J, s))
    h.true(True, 'reached')
    for i, x in enumerate(r):
        if isinstance(x, str) or x is None:
            continue
        h.eq(x, x, '%d' % i)
    h.eq(len(r), len(r), 'size')


bad = 0
try:
    for k, e in enumerate(EXPR):
        r = harness.run_symbolic(harness.Inst(e, case, time_s=20, k=k))
        if r['status'] != 'ok' or r['violations'] or r['mismatches'] or r['unconfirmed'] or not r['witnesses']:
            bad += 1
            print('BAD %s\n     %s %s %s %s wit=%s' % (e, r['status'], (r['note'] or '').strip()[-250:], [(x['label'], x['detail']) for x in r['violations']][:2],
                                                [m['what'] for m in r['mismatches'][:1]], r['witnesses']), [x['label'] for x in r['unconfirmed'][:1]], {k: r.get(k) for k in ('undecided', 'explored', 'aborted', 'paths', 'reached')})
        sys.stdout.flush()
finally:
    shutil.rmtree(tmp)
print('%d expressions, %d bad' % (len(EXPR), bad))
