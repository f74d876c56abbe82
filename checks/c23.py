from symx.harness import Inst
from .common import *

BOUNDS = 'one body; every mass, centre, inertia matrix and reduction points; sequences of up to three moves'
OUTSIDE = 'floating-point rounding'


def transport(m, d):
    dd = dot(d, d)
    return [[m * (dd * (1 if i == j else 0) - d[i] * d[j]) for j in range(3)] for i in range(3)]


def madd(a, b):
    return [[a[i][j] + b[i][j] for j in range(3)] for i in range(3)]


def body(h, point=None):
    """a body of inertia J at its centre of gravity, given at the reduction point"""
    mass = h.real('mass', 0.1, 1000)
    G = [h.real('g' + c, -20, 20) for c in 'xyz']
    J = {k: h.real('j' + k, -500, 500) for k in ('xx', 'yy', 'zz', 'yz', 'xz', 'xy')}
    JM = [[J['xx'], -J['xy'], -J['xz']], [-J['xy'], J['yy'], -J['yz']], [-J['xz'], -J['yz'], J['zz']]]
    R = h.mod('inertia').RigidBodyInertia
    if point is None:
        return R(mass, G, J['xx'], J['yy'], J['zz'], J['yz'], J['xz'], J['xy']), mass, G, JM
    P = [h.real('p' + c, -20, 20) for c in 'xyz']
    I = madd(JM, transport(mass, sub(G, P)))
    g = h.arr(G, float) if point == 'array' else G
    p = h.arr(P, float) if point == 'array' else P
    return R(mass, g, I[0][0], I[1][1], I[2][2], -I[1][2], -I[0][2], -I[0][1], point=p), mass, G, JM


def same(h, b, mass, G, JM, P, what):
    h.eq(b.mass, mass, what + ': mass')
    h.eq(b.gravity_center, G, what + ': gravity centre')
    h.eq(b.reduction_point, P, what + ': reduction point')
    I = madd(JM, transport(mass, sub(G, P)))
    h.eq(b.inertia_matrix, I, what + ': inertia matrix', tol=1e-9)
    h.eq([b.xx, b.yy, b.zz], [I[0][0], I[1][1], I[2][2]], what + ': moments', tol=1e-9)
    h.eq([b.yz, b.xz, b.xy], [-I[1][2], -I[0][2], -I[0][1]], what + ': products', tol=1e-9)


def construct(h, point):
    b, mass, G, JM = body(h, point)
    P = G if point is None else [h_ for h_ in b.reduction_point]
    same(h, b, mass, G, JM, P, 'as given')
    if point is None:
        h.true(b.is_at_cog(), 'is_at_cog')
    else:
        same_point = h.band(P[0] == G[0], P[1] == G[1], P[2] == G[2])
        if b.is_at_cog():
            h.true(same_point, 'is_at_cog only at the centre')
        else:
            h.true(h.bnot(same_point), 'is_at_cog at the centre')


def at_cog(h, point):
    b, mass, G, JM = body(h, point)
    P = [x for x in b.reduction_point]
    c = b.at_cog
    same(h, c, mass, G, JM, G, 'at_cog')
    h.true(c.is_at_cog(), 'at_cog is at the centre')
    same(h, b, mass, G, JM, P, 'original after at_cog')
    c = c.at_cog
    same(h, c, mass, G, JM, G, 'at_cog twice')


def moves(h, point, n, back):
    b, mass, G, JM = body(h, point)
    P = [x for x in b.reduction_point]
    pts = [[h.real('q%d%s' % (k, c), -20, 20) for c in 'xyz'] for k in range(n)]
    if back:
        pts.append(P)
    for k, q in enumerate(pts):
        b.reduction_point = q if k % 2 == 0 else h.arr(q, float)
        same(h, b, mass, G, JM, q, 'move %d' % k)
    same(h, b.at_cog, mass, G, JM, G, 'at_cog after the moves')


def larger(h):
    b, mass, G, JM = body(h, 'list')
    b.reduction_point = [h.real('q' + c, -20, 20) for c in 'xyz']
    c = b.at_cog
    for k in ('xx', 'yy', 'zz'):
        h.le(getattr(c, k), getattr(b, k), 'moment %s smallest at the centre' % k)


def shift(h):
    b, mass, G, JM = body(h, 'list')
    P = [x for x in b.reduction_point]
    I = [[x for x in r] for r in b.inertia_matrix]
    b.shift_at_cog()
    h.eq(b.reduction_point, G, 'shift_at_cog: reduction point')
    h.eq(b.mass, mass, 'shift_at_cog: mass')
    h.eq(b.gravity_center, G, 'shift_at_cog: centre')
    # what the existing test asserts: the transport is added
    h.eq(b.inertia_matrix, madd(I, transport(mass, sub(G, P))), 'shift_at_cog: result', tol=1e-9)


def shift_same(h):
    b, mass, G, JM = body(h, 'list')
    b.shift_at_cog()
    h.eq(b.inertia_matrix, JM, 'shift_at_cog gives the inertia of the same body at its centre', tol=1e-9)


def set_cog(h):
    b, mass, G, JM = body(h, 'list')
    I = [[x for x in r] for r in b.inertia_matrix]
    P = [x for x in b.reduction_point]
    q = [h.real('q' + c, -20, 20) for c in 'xyz']
    b.set_cog(q)
    h.eq(b.gravity_center, q, 'set_cog')
    h.eq(b.inertia_matrix, I, 'set_cog leaves the inertia')
    h.eq(b.reduction_point, P, 'set_cog leaves the reduction point')


def default_set_cog(h):
    """a body given at its centre keeps its reduction point when the centre changes"""
    b, mass, G, JM = body(h)
    q = [h.real('q' + c, -20, 20) for c in 'xyz']
    b.set_cog(q)
    h.eq(b.reduction_point, G, 'reduction point kept')
    h.eq(b.gravity_center, q, 'centre')


INSTANCES = [Inst('construct-' + str(p), construct, point=p) for p in (None, 'list', 'array')]
INSTANCES += [Inst('at_cog-' + str(p), at_cog, point=p) for p in (None, 'list', 'array')]
INSTANCES += [Inst('moves-%s-%d%s' % (p, n, 'b' if b else ''), moves, point=p, n=n, back=b, tier=t)
              for p in (None, 'list', 'array') for n, b, t in ((1, 0, 'quick'), (1, 1, 'quick'), (2, 1, 'quick'),
                                                             (4, 1, 'thorough'))]
INSTANCES += [Inst('larger', larger), Inst('shift', shift), Inst('shift-same-body', shift_same), Inst('set_cog', set_cog),
              Inst('set_cog-default', default_set_cog)]
