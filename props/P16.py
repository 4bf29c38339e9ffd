"""sail meshes"""
from pyvc.ob import ob
from props.spec import *

Me = 'pySailingVLM.solver.mesher'


@ob('P16', 'points of a segment', sizes=[{'n': 1}, {'n': 3}])
def segment(h):
    """n+1 equally spaced points from p1 to p2"""
    p, q, n = h.vec('p'), h.vec('q'), h.dim('n', 1, 5)
    s = h.mod(Me).discrete_segment(p, q, n)
    h.shape('points', s, (n + 1, 3))
    for i in h.each(n + 1):
        t = h.div(i, n)
        h.eq('point', h.v3(s, i), [p[k] + t * (q[k] - p[k]) for k in range(3)])


@ob('P16', 'flat mesh', sizes=[{'n': 1, 'm': 2}, {'n': 3, 'm': 2}])
def points(h):
    """row i is the equally divided segment between the i-th points of both lines"""
    n, m = h.dim('n', 1, 4), h.dim('m', 1, 4)
    A, B = h.arr('A', (m, 3)), h.arr('B', (m, 3))
    s = h.mod(Me).make_point_mesh(A, B, n)
    h.shape('mesh', s, (m, n + 1, 3))
    for i, j in h.each(m, n + 1):
        t = h.div(j, n)
        h.eq('point', h.v3(s, i, j), [A[i, k] + t * (B[i, k] - A[i, k]) for k in range(3)])


@ob('P16', 'sail mesh', sizes=[{'ns': 1, 'nc': 1}, {'ns': 2, 'nc': 3}])
def sail(h):
    """section i starts at the i-th equally spaced luff point and runs along its chord with the camber line of its own camber and camber position"""
    nc, ns = h.dim('nc', 1, 4), h.dim('ns', 1, 4)
    p, q = h.vec('p'), h.vec('q')
    C = h.arr('C', (ns + 1, 3), lo=0.1, hi=3, wide=(0.001, 60))
    m, d = h.arr('m', (ns + 1,), lo=0, hi=0.3, specials=(0.0, 0.3)), h.arr('d', (ns + 1,), lo=0.02, hi=0.9, specials=(0.5, 0.9))
    h.assume_all(ns + 1, lambda i: h.and_(h.le(0, m[i]), h.le(m[i], h.num('0.3')), h.lt(0, d[i]), h.le(d[i], h.num('0.9'))))
    s = h.mod(Me).make_airfoil_mesh([p, q], [nc, ns], C, d, m)
    h.shape('mesh', s, (ns + 1, nc + 1, 3))
    for i, j in h.each(ns + 1, nc + 1):
        h.eq('point', h.v3(s, i, j), station(h, h.v3(p), h.v3(q), C[i, 0], m[i], d[i], nc, ns, i, j, lambda *a: camber(h, *a)))
