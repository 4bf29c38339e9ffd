"""rotations"""
from pyvc.ob import ob
from props.spec import *

Ge = 'pySailingVLM.rotations.geometry_calc'


@ob('P08', 'rotation matrix')
def matrix(h):
    """the matrix turns every vector counter-clockwise about the axis by the angle (Rodrigues)"""
    m = h.mod(Ge)
    ax, v, t = h.vec('ax', specials=(0.0, 1.0)), h.vec('v'), h.real('t')
    h.assume(h.gt(n2(h.v3(ax)), 0))
    M = m.rotation_matrix(ax, t)
    h.shape('M', M, (3, 3))
    a, x = h.v3(ax), h.v3(v)
    l = norm(h, a)
    u = [h.div(a[k], l) for k in range(3)]
    c, s = 2 * h.cos(t / 2) * h.cos(t / 2) - 1, 2 * h.sin(t / 2) * h.cos(t / 2)
    r = rod(h, x, u, c, s)
    h.eq('Mv', [dot(h.v3(M, k), x) for k in range(3)], r)


@ob('P08', 'rotation about an axis through the origin', sizes=[{'m': 2}])
def origin(h):
    m = h.mod(Ge)
    K = h.dim('m', 1, 4)
    ax, P, t = h.vec('ax', specials=(0.0, 1.0)), h.arr('P', (K, 3)), h.real('t')
    h.assume(h.gt(n2(h.v3(ax)), 0))
    r = m.rotate_points_around_origin_axis(P, ax, t)
    h.shape('points', r, (K, 3))
    a = h.v3(ax)
    l = norm(h, a)
    u = [h.div(a[k], l) for k in range(3)]
    for i in h.each(K):
        h.eq('point', h.v3(r, i), rod(h, h.v3(P, i), u, h.cos(t), h.sin(t)))


@ob('P08', 'rotation about an arbitrary line', sizes=[{'m': 2}])
def line(h):
    """each point is turned about the line through p1 and p2 by the angle; points on the line stay"""
    m = h.mod(Ge)
    K = h.dim('m', 1, 4)
    p1, p2, P, t = h.vec('p1'), h.vec('p2', specials=(0.0, 1.0)), h.arr('P', (K, 3)), h.real('t')
    a = sub(h.v3(p2), h.v3(p1))
    h.assume(h.gt(a[1] * a[1] + a[2] * a[2], 0))
    r = m.rotate_points_around_arbitrary_axis(P, p1, p2, t)
    h.shape('points', r, (K, 3))
    for i in h.each(K):
        h.eq('point', h.v3(r, i), rotline(h, h.v3(P, i), h.v3(p1), h.v3(p2), t))


@ob('P08', 'points on the axis stay')
def axis(h):
    """lemma over the contract of the rotation about a line"""
    a, b, s, t = h.vec('a'), h.vec('b', specials=(0.0, 1.0)), h.real('s'), h.real('t')
    A, B = h.v3(a), h.v3(b)
    h.assume(h.gt(n2(sub(B, A)), 0))
    p = [A[k] + s * (B[k] - A[k]) for k in range(3)]
    h.eq('point', rotline(h, p, A, B, t), p)


@ob('P08', 'mirror image of a rotation')
def mirrored(h):
    """lemma over the contract: turning the mirror image of a point about the mirror image of the line, taken in the opposite direction, gives the mirror image"""
    p, a, b, t = h.vec('p'), h.vec('a'), h.vec('b', specials=(0.0, 1.0)), h.real('t')
    x, A, B = h.v3(p), h.v3(a), h.v3(b)
    h.assume(h.gt(n2(sub(B, A)), 0))
    h.eq('point', rotline(h, mirror(x), mirror(B), mirror(A), t), mirror(rotline(h, x, A, B, t)))
