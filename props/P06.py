"""panels of a mesh"""
from pyvc.ob import ob
from props.spec import *

Pa = 'pySailingVLM.solver.panels'
Me = 'pySailingVLM.solver.mesher'


@ob('P06', 'panels from a mesh', sizes=[{'N': 1, 'M': 2}, {'N': 3, 'M': 2}])
def mesh(h):
    """panel i*M+j has corners SE,SW,NW,NE of cell (i,j); last row = trailing edge, first row = leading edge unless it is also the last"""
    m = h.mod(Pa)
    N, M = h.dim('N', 1, 4), h.dim('M', 1, 4)
    X = h.arr('X', (N + 1, M + 1, 3))
    p, te, le = m.make_panels_from_mesh_spanwise(X)
    h.shape('panels', p, (N * M, 4, 3))
    h.shape('trailing', te, (N * M,))
    h.shape('leading', le, (N * M,))
    for i, j in h.each(N, M):
        q = i * M + j
        h.eq('SE', h.v3(p, q, 0), h.v3(X, i + 1, j))
        h.eq('SW', h.v3(p, q, 1), h.v3(X, i, j))
        h.eq('NW', h.v3(p, q, 2), h.v3(X, i, j + 1))
        h.eq('NE', h.v3(p, q, 3), h.v3(X, i + 1, j + 1))
        h.eq('trailing', te[q], h.same(i, N - 1))
        h.eq('leading', le[q], h.and_(h.same(i, 0), h.not_(h.same(i, N - 1))))


@ob('P06', 'panel areas', sizes=[{'m': 2}])
def area(h):
    """area = sum of the two triangles (p1,p2,p3) and (p2,p3,p4) of the corner path"""
    m = h.mod(Pa)
    K = h.dim('m', 1, 4)
    p = h.arr('p', (K, 4, 3))
    a = m.get_panels_area(p)
    h.shape('area', a, (K,))
    for i in h.each(K):
        s = [sub(h.v3(p, i, k + 1), h.v3(p, i, k)) for k in range(3)]
        h.eq('area[i]', a[i], (norm(h, cross(s[0], s[1])) + norm(h, cross(s[1], s[2]))) / 2)
