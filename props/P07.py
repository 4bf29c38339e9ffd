"""geometric data of the panels"""
from pyvc.ob import ob
from props.spec import *

C = 'pySailingVLM.solver.coefs'


def quarter(a, b, F):
    """a quarter of the way from a to b"""
    return [a[k] + (b[k] - a[k]) / 4 for k in range(3)]


def mid(a, b): return [(a[k] + b[k]) / 2 for k in range(3)]


def flat(h, P, K):
    """every panel has a normal: its diagonals are not parallel"""
    h.assume_all(K, lambda i: h.gt(n2(cross(sub(h.v3(P, i, 2), h.v3(P, i, 0)), sub(h.v3(P, i, 3), h.v3(P, i, 1)))), 0))


def common(h, P, r, q, i, g):
    ns, ctr, cp, rings, spans, lm, tm = r
    p1, p2, p3, p4 = [h.v3(P, q, k) for k in range(4)]
    le, te = mid(p2, p3), mid(p1, p4)
    n = cross(sub(p3, p1), sub(p4, p2))
    ln = norm(h, n)
    h.eq('normal', h.v3(ns, q), [h.div(n[k], ln) for k in range(3)])
    h.eq('leading mid point', h.v3(lm, q), le)
    h.eq('trailing mid point', h.v3(tm, q), te)
    h.eq('control point at 3/4', h.v3(ctr, q), [le[k] + 3 * (te[k] - le[k]) / 4 for k in range(3)])
    h.eq('centre of pressure at 1/4', h.v3(cp, q), [le[k] + (te[k] - le[k]) / 4 for k in range(3)])
    B, Cc = quarter(p2, p1, h), quarter(p3, p4, h)
    h.eq('ring B', h.v3(rings, q, 1), B)
    h.eq('ring C', h.v3(rings, q, 2), Cc)
    h.eq('span vector', h.v3(spans, q), scale(g, sub(Cc, B)))
    return p1, p2, p3, p4


@ob('P07', 'panel geometry and vortex rings', sizes=[{'G': 1, 'nc': 2, 'ns': 2}, {'G': 2, 'nc': 2, 'ns': 1}])
def variables(h):
    """unit normals, 3/4 control points, 1/4 centres of pressure, rings on quarter lines: the aft side of a ring is the bound side of the panel behind it in the same grid, or extends a quarter behind the panel at a trailing edge"""
    m = h.mod(C)
    G, nc, ns = h.dim('G', 1, 4), h.dim('nc', 1, 3), h.dim('ns', 1, 3)
    n = nc * ns
    K = G * n
    P = h.arr('P', (K, 4, 3))
    te = h.arr('te', (K,), kind='b', p=0.4)
    if not h.sym:
        for q in range(K):
            if q % n >= n - ns:
                te[q] = True
        h.made(te)
    g = h.real('g')
    # the last chordwise row of every grid is a trailing edge
    h.assume_all(G, lambda a: h.all(n, lambda k: h.or_(te[a * n + k], h.lt(k, n - ns))))
    flat(h, P, K)
    r = m.calculate_vlm_variables(P, te, g, nc, ns)
    for nm, a, sh in zip(('normals', 'ctr', 'cp', 'rings', 'spans', 'lm', 'tm'), r, ((K, 3), (K, 3), (K, 3), (K, 4, 3), (K, 3), (K, 3), (K, 3))):
        h.shape(nm, a, sh)
    for a, k in h.each(G, n):
        q = a * n + k
        p1, p2, p3, p4 = common(h, P, r, q, k, g)
        is_te = te[q]

        def aft(x, y, side):
            own = quarter(y, x, h)
            return [x[i] + (x[i] - y[i]) / 4 for i in range(3)]

        def nxt(c1, c2):
            return quarter(h.v3(P, q + ns, c2), h.v3(P, q + ns, c1), h)
        h.eq('ring A', h.v3(r[3], q, 0), h.ite(is_te, lambda: aft(p1, p2, 0), lambda: nxt(0, 1)))
        h.eq('ring D', h.v3(r[3], q, 3), h.ite(is_te, lambda: aft(p4, p3, 3), lambda: nxt(3, 2)))


@ob('P07', 'single-panel geometry', sizes=[{'m': 2}])
def simple(h):
    """the stand-alone routine (every ring a quarter behind its own panel) agrees on all shared quantities"""
    m = h.mod(C)
    K = h.dim('m', 1, 4)
    P, g = h.arr('P', (K, 4, 3)), h.real('g')
    flat(h, P, K)
    r = m.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points(P, g)
    for q in h.each(K):
        p1, p2, p3, p4 = common(h, P, r, q, q, g)
        h.eq('ring A', h.v3(r[3], q, 0), [p1[i] + (p1[i] - p2[i]) / 4 for i in range(3)])
        h.eq('ring D', h.v3(r[3], q, 3), [p4[i] + (p4[i] - p3[i]) / 4 for i in range(3)])


@ob('P07', 'normals are unit vectors orthogonal to both diagonals', sizes=[{'m': 2}])
def unit(h):
    """every normal has length one and is perpendicular to both diagonals of its panel"""
    m = h.mod(C)
    ns = h.dim('ns', 1, 4)
    P, g = h.arr('P', (ns, 4, 3)), h.real('g')
    te = h.arr('te', (ns,), kind='b', p=1.1)
    h.assume_all(ns, lambda i: te[i])
    flat(h, P, ns)
    r = m.calculate_vlm_variables(P, te, g, 1, ns)
    for q in h.each(ns):
        n = h.v3(r[0], q)
        p = [h.v3(P, q, k) for k in range(4)]
        h.eq('length', n2(n), 1)
        h.eq('diagonal 1', dot(n, sub(p[2], p[0])), 0, **({} if h.sym else {'scale': 1.0}))
        h.eq('diagonal 2', dot(n, sub(p[3], p[1])), 0, **({} if h.sym else {'scale': 1.0}))
