"""the water surface is a mirror: mirrored configurations give mirrored flows"""
from pyvc.ob import ob
from props.spec import *
from props.P01 import pts, LS, off_wake
from props.P04 import KS, edges
from props.P07 import flat

V = 'pySailingVLM.solver.velocity'
C = 'pySailingVLM.solver.coefs'
Fo = 'pySailingVLM.solver.forces'
W = 'pySailingVLM.inlet.winds'


def M(h, a):
    return h.array(mirror(h.v3(a)))


def vmirror(h, A, K):
    return h.grid((K, 3), lambda i, k: sgn(h, k, A[i, k]))


def sgn(h, k, x):
    return -1 * x if k == 2 else x


def rmirror(h, R, K):
    """mirror images of quadrilaterals, corners in reverse order (the way the program builds its underwater panels)"""
    return h.grid((K, 4, 3), lambda i, c, k: sgn(h, k, R[i, 3 - c, k]))


@ob('P20', 'vortex line')
def line(h):
    m = h.mod(V)
    p, a, b = pts(h, 'p', 'a', 'b')
    g = h.real('g')
    h.eq('mirror image', h.v3(m.vortex_line(M(h, p), M(h, b), M(h, a), g)), mirror(h.v3(m.vortex_line(p, a, b, g))))


@ob('P20', 'infinite vortex line')
def inf(h):
    m = h.mod(V)
    p, a, u = pts(h, 'p', 'a', 'u')
    g = h.real('g')
    off_wake(h, p, a, u)
    h.eq('mirror image', h.v3(m.vortex_infinite_line(M(h, p), M(h, a), M(h, u), -1 * g)), mirror(h.v3(m.vortex_infinite_line(p, a, u, g))))


@ob('P20', 'vortex ring', contracts=LS, budget=60)
def ringm(h):
    m = h.mod(V)
    p, A, B, Cc, D = pts(h, 'p', 'A', 'B', 'C', 'D')
    g = h.real('g')
    r = h.v3(m.vortex_ring(p, A, B, Cc, D, g))
    h.eq('mirror image', h.v3(m.vortex_ring(M(h, p), M(h, D), M(h, Cc), M(h, B), M(h, A), g)), mirror(r))


@ob('P20', 'no flow through the water', contracts=LS, budget=60)
def surface(h):
    """a ring or horseshoe and its mirror image together induce no velocity across the water surface"""
    m = h.mod(V)
    A, B, Cc, D, u = pts(h, 'A', 'B', 'C', 'D', 'u')
    g, x, y = h.real('g'), h.real('x'), h.real('y')
    p = h.array([x, y, 0 * x])
    h.eq('ring', m.vortex_ring(p, A, B, Cc, D, g)[2] + m.vortex_ring(p, M(h, D), M(h, Cc), M(h, B), M(h, A), g)[2], h.num(0))
    w = h.array([u[0], u[1], 0 * x])
    # off the wake lines
    for q in (A, D):
        h.assume(h.gt(n2(cross(h.v3(w), sub(h.v3(p), h.v3(q)))), h.num('0.000001')))
    h.eq('horseshoe', m.vortex_horseshoe_v2(p, A, B, Cc, D, w, g)[2] + m.vortex_horseshoe_v2(p, M(h, D), M(h, Cc), M(h, B), M(h, A), w, g)[2], h.num(0))


def config(h):
    K = h.dim('m', 1, 4)
    Vw, P, N = h.arr('Vw', (K, 3)), h.arr('P', (K, 3)), h.arr('N', (K, 3))
    return K, Vw, P, N, h.arr('R', (K, 4, 3)), h.arr('te', (K,), kind='b'), h.real('g')


@ob('P20', 'influence coefficients', contracts=KS, sizes=[{'m': 2}], budget=60)
def coefs(h):
    """unit velocities are mirrored and influence coefficients and right-hand side are the same in the mirrored configuration"""
    m = h.mod(C)
    K, Vw, P, N, R, te, g = config(h)
    mV, mP, mN, mR = vmirror(h, Vw, K), vmirror(h, P, K), vmirror(h, N, K), rmirror(h, R, K)
    co, vi = m.calc_velocity_coefs(Vw, P, R, N, te, g)
    co2, vi2 = m.calc_velocity_coefs(mV, mP, mR, mN, te, g)
    b, b2 = m.calculate_RHS(Vw, N), m.calculate_RHS(mV, mN)
    for i in h.each(K):
        h.eq('right-hand side', b2[i], b[i])
    for i, j in h.each(K, K):
        h.eq('coefficient', co2[i, j], co[i, j])
        h.eq('unit velocity', h.v3(vi2, i, j), mirror(h.v3(vi, i, j)))


@ob('P20', 'panel geometry', sizes=[{'G': 1, 'nc': 2, 'ns': 2}])
def geometry(h):
    """mirrored panels have mirrored normals, points and rings; the bound vortex runs the other way"""
    m = h.mod(C)
    G, nc, ns = h.dim('G', 1, 3), h.dim('nc', 1, 3), h.dim('ns', 1, 3)
    n = nc * ns
    K = G * n
    P = h.arr('P', (K, 4, 3))
    te = h.arr('te', (K,), kind='b', p=0.4)
    if not h.sym:
        for q in range(K):
            if q % n >= n - ns:
                te[q] = True
        h.made(te)
    g = h.real('g')
    h.assume_all(G, lambda a: h.all(n, lambda k: h.or_(te[a * n + k], h.lt(k, n - ns))))
    flat(h, P, K)
    r, s = m.calculate_vlm_variables(P, te, g, nc, ns), m.calculate_vlm_variables(rmirror(h, P, K), te, g, nc, ns)
    for a, k in h.each(G, n):
        q = a * n + k
        for x, nm in ((0, 'normal'), (1, 'control point'), (2, 'centre of pressure'), (5, 'leading mid point'), (6, 'trailing mid point')):
            h.eq(nm, h.v3(s[x], q), mirror(h.v3(r[x], q)))
        h.eq('bound vortex', h.v3(s[4], q), scale(-1, mirror(h.v3(r[4], q))))
        for c in range(4):
            h.eq('ring', h.v3(s[3], q, c), mirror(h.v3(r[3], q, 3 - c)))


@ob('P20', 'forces', contracts=KS, sizes=[{'ns': 1, 'nc': 2}], budget=60)
def forces(h):
    """for the same circulation the panel forces and velocities of the mirrored configuration are the mirror images:
    velocities are mirrored, both forces obey the same law, and the law commutes with mirroring"""
    m = h.mod(Fo)
    ns, nc = h.dim('ns', 1, 3), h.dim('nc', 1, 3)
    K = ns * nc
    Vw, P, N, B = h.arr('Vw', (K, 3)), h.arr('P', (K, 3)), h.arr('N', (K, 3)), h.arr('B', (K, 3))
    R, te, le, Ga = h.arr('R', (K, 4, 3)), h.arr('te', (K,), kind='b'), h.arr('le', (K,), kind='b'), h.arr('G', (K,))
    g, rho = h.real('g'), h.real('rho', lo=0.1, wide=(0.001, 2000))
    edges(h, le, ns)
    h.assume(h.or_(h.all(ns, lambda i: le[i]), h.all(K, lambda i: h.not_(le[i]))))
    f, v, w = m.calc_force_wrapper(Vw, Ga, rho, P, R, ns, N, B, te, le, 'force_xyz', g)
    mB = h.grid((K, 3), lambda i, k: sgn(h, k, -1 * B[i, k]))
    f2, v2, w2 = m.calc_force_wrapper(vmirror(h, Vw, K), Ga, rho, vmirror(h, P, K), rmirror(h, R, K), ns, vmirror(h, N, K), mB, te, le, 'force_xyz', g)
    for i in h.each(K):
        h.eq('induced velocity', h.v3(w2, i), mirror(h.v3(w, i)))
        h.eq('velocity', h.v3(v2, i), mirror(h.v3(v, i)))
        none = h.all(K, lambda i: h.not_(le[i]))
        dg = h.ite(h.or_(le[i], none), lambda: Ga[i], lambda: Ga[i] - Ga[i - ns])
        h.eq('law', h.v3(f, i), scale(rho, cross(h.v3(v, i), scale(dg, h.v3(B, i)))))
        h.eq('law in the mirror', h.v3(f2, i), scale(rho, cross(h.v3(v2, i), scale(dg, h.v3(mB, i)))))
        if not h.sym:
            h.eq('force', h.v3(f2, i), mirror(h.v3(f, i)))
    x, y = h.v3(h.vec('x')), h.v3(h.vec('y'))
    h.eq('law commutes with mirroring', scale(rho, cross(mirror(x), scale(-1, mirror(y)))), mirror(scale(rho, cross(x, y))))
