"""Shared specification functions, written in the vocabulary F (interpreted symbolically by the prover and in floats on the real code)."""
from pyvc.ob import opaque, contract, lemma


# ---------------------------------------------------------------- vectors
def sub(a, b): return [a[k] - b[k] for k in range(3)]
def add(*vs): return [sum_([v[k] for v in vs]) for k in range(3)]
def scale(c, a): return [c * a[k] for k in range(3)]
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def n2(a): return dot(a, a)
def norm(F, a): return F.sqrt(n2(a))
def mirror(a): return [a[0], a[1], -a[2]]


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def ites(F, c, a, b):
    return [F.ite(c, x, y) for x, y in zip(a, b)]


# ---------------------------------------------------------------- vortex kernels
EPS = '1/100000000'


@opaque('seg', (3, 3, 3, 1), 3)
def seg(F, p, a, b, g):
    """finite straight vortex segment a->b of strength g: Biot-Savart, zero inside the core"""
    eps = F.div(F.num(1), F.num(100000000))
    r0, r1, r2 = sub(b, a), sub(p, a), sub(p, b)
    c = cross(r1, r2)
    c2 = n2(c)
    core = F.or_(F.lt(norm(F, r1), eps), F.lt(norm(F, r2), eps), F.lt(c2, eps))

    def val(k):
        e = F.div(dot(r0, r1), norm(F, r1)) - F.div(dot(r0, r2), norm(F, r2))
        return F.div(g * c[k] * e, 4 * F.pi * c2)
    return [F.ite(core, F.num(0), lambda k=k: val(k)) for k in range(3)]


@opaque('semi', (3, 3, 3, 1), 3)
def semi(F, p, a, u, g):
    """semi-infinite straight vortex leaving a along u"""
    w = sub(p, a)
    nu, nw = norm(F, u), norm(F, w)
    c = cross(u, w)
    # g/4pi * (u^ x w) / (|w| (|w| - u^.w))
    den = 4 * F.pi * nw * F.nz(nw * nu - dot(u, w), nw * nu)
    return [F.div(g * c[k], den) for k in range(3)]


def ring_(F, h, p, A, B, C, D, g):
    """closed ring of four segments (h: how segments are written)"""
    return add(h('seg', p, A, B, g), h('seg', p, B, C, g), h('seg', p, C, D, g), h('seg', p, D, A, g))


def shoe_(F, h, p, A, B, C, D, u, g):
    """open ring A-B-C-D closed at infinity along u"""
    return add(h('seg', p, A, B, g), h('seg', p, B, C, g), h('seg', p, C, D, g), h('semi', p, D, u, g), h('semi', p, A, u, -1 * g))


@opaque('ring', (3, 3, 3, 3, 3, 1), 3)
def ring(F, p, A, B, C, D, g):
    return ring_(F, _direct(F), p, A, B, C, D, g)


@opaque('shoe', (3, 3, 3, 3, 3, 3, 1), 3)
def shoe(F, p, A, B, C, D, u, g):
    return shoe_(F, _direct(F), p, A, B, C, D, u, g)


def _direct(F):
    def h(name, *a):
        return {'seg': seg, 'semi': semi}[name](F, *a)
    return h


# ---------------------------------------------------------------- sail section and rotations
def camber(h, m, p, x):
    """NACA 4-digit camber line"""
    return h.ite(h.lt(x, p), lambda: h.div(m * (2 * p * x - x * x), p * p), lambda: h.div(m * (1 - 2 * p + 2 * p * x - x * x), (1 - p) * (1 - p)))


@opaque('camber', (1, 1, 1), 1)
def camber_(F, m, p, x):
    return camber(F, m, p, x)


def rod(F, v, u, c, s):
    """Rodrigues: rotate v about the unit axis u (cosine c, sine s)"""
    w = cross(u, v)
    d = dot(u, v)
    return [v[k] * c + w[k] * s + u[k] * d * (1 - c) for k in range(3)]


@opaque('rotline', (3, 3, 3, 1), 3)
def rotline(F, p, a, b, t):
    """p turned by the angle t about the line from a to b"""
    v = sub(b, a)
    l = norm(F, v)
    u = [F.div(v[k], l) for k in range(3)]
    return add(a, rod(F, sub(p, a), u, F.cos(t), F.sin(t)))


@lemma('camber')
def camber_start(F, k, m, p, x):
    """P15 'ends of the camber line': the camber line starts on the chord (camber position > 0)"""
    return F.num(0) if F.zero(x) else None


@lemma('rotline')
def rotline_axis(F, k, p, a, b, t):
    """P08 'points on the axis stay'"""
    c = cross(sub(p, a), sub(b, a))
    return p[k] if F.zero(c[2]) and F.zero(c[1]) and F.zero(c[0]) else None


def station(F, p, q, C, m, d, nc, ns, i, j, cam):
    """station j of the section i of a sail mesh between the luff points p and q"""
    t, x = F.div(i, ns), F.div(j, nc)
    le = [p[k] + t * (q[k] - p[k]) for k in range(3)]
    return [le[0] + x * C, C * cam(m, d, x), le[2]]


@contract('airfoil mesh')
def airfoil_mesh(F, le, grid, C, dist, cam):
    """the contract proved as P16 'sail mesh'"""
    p, q = F.v3(le, 0), F.v3(le, 1)
    nc, ns = grid[0], grid[1]
    C, dist, cam = F.asarr(C), F.asarr(dist), F.asarr(cam)
    F.require(F.lt(0, nc))
    F.require(F.lt(0, ns))
    F.rows(C, ns + 1)
    F.rows(dist, ns + 1)
    F.rows(cam, ns + 1)
    F.require_all(ns + 1, lambda i: F.and_(F.lt(0, C[i, 0]), F.le(0, cam[i]), F.le(cam[i], F.num('0.3')), F.lt(0, dist[i]), F.le(dist[i], F.num('0.9'))))

    def point(i, j, k):
        return station(F, p, q, C[i, 0], cam[i], dist[i], nc, ns, i, j, lambda m, d, x: F.fn('camber', m, d, x))[k]
    return F.build((ns + 1, nc + 1, 3), point)


@contract('rotation about a line')
def rot_line(F, P, a, b, t):
    """the contract proved as P08 'rotation about an arbitrary line'"""
    P = F.asarr(P)
    a, b = F.v3(a), F.v3(b)
    v = sub(b, a)
    F.require(F.or_(F.lt(0, v[2]), F.lt(v[2], 0), F.lt(0, v[1]), F.lt(v[1], 0)))

    def point(i, k):
        return F.fn('rotline', F.v3(P, i), a, b, t)[k]
    return F.build((F.dims(P)[0], 3), point)


def rx(v, c, s): return [v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]]
def rz(v, c, s): return [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]


@contract('heel and leeway')
def heel_leeway(F, self, point):
    """the contract proved as P09 'heel then leeway' (the angles of a transformation are those it was made with)"""
    k = F.pi / 180
    heel, lee = F.scalar(self.heel_deg), F.scalar(self.leeway_deg)
    x = F.v3(point)
    c, s = F.cos(heel * k), F.sin(heel * k)
    y = rx(x, c, -1 * s) if F.decide(F.gt(x[2], 0)) else rx(x, c, s)
    z = rz(y, F.cos(lee * k), F.sin(lee * k))
    return F.array(z)


@contract('reverse of heel and leeway')
def unturn(F, self, point):
    """the contract proved as P09 'reverse'"""
    k = F.pi / 180
    heel, lee = F.scalar(self.heel_deg), F.scalar(self.leeway_deg)
    c, s = F.cos(heel * k), F.sin(heel * k)
    x = rz(F.v3(point), F.cos(lee * k), -1 * F.sin(lee * k))
    return F.array(rx(x, c, s) if F.decide(F.gt(x[2], 0)) else rx(x, c, -1 * s))


PIPE = {}


@contract('panel data')
def panel_data(F, panels, te, g, nc, ns):
    """coefs.calculate_vlm_variables on the inputs of the current harness: arrays about which nothing but their shape is assumed (their values: P07)"""
    d = PIPE
    P, T = F.asarr(panels), F.asarr(te)
    F.rows(P, d['K'])
    F.require_all(d['K'], lambda i: F.and_(F.same(T[i], d['te'][i]), *[F.same(P[i, k, c], d['P'][i, k, c]) for k in range(4) for c in range(3)]))
    F.require(F.and_(F.same(g, d['g']), F.same(nc, d['nc']), F.same(ns, d['ns'])))
    return d['result']


@contract('influence coefficients')
def influence(F, V_app_infw, points, rings, normals, te, g):
    """the contract proved as P02 'influence coefficients'"""
    W, P, R, N, T = [F.asarr(x) for x in (V_app_infw, points, rings, normals, te)]
    K = F.dims(P)[0]
    for x in (W, R, N, T):
        F.rows(x, K)

    def w(i, j):
        q = [F.v3(R, j, k) for k in range(4)]
        p = F.v3(P, i)
        a, b = F.fn('shoe', p, *q, F.v3(W, j), g), F.fn('ring', p, *q, g)
        return [F.ite(T[j], x, y) for x, y in zip(a, b)]
    return F.build((K, K), lambda i, j: dot(w(i, j), F.v3(N, i))), F.build((K, K, 3), lambda i, j, k: w(i, j)[k])


@contract('superposition')
def superposition(F, V_app_infs, coeff, gamma):
    """the contract proved as P02 'apparent velocity'"""
    W, A, G = F.asarr(V_app_infs), F.asarr(coeff), F.asarr(gamma)
    K = F.dims(G)[0]
    for x in (W, A):
        F.rows(x, K)
    ind = lambda i, k: F.sum(K, lambda j: A[i, j, k] * G[j])
    return F.build((K, 3), ind), F.build((K, 3), lambda i, k: W[i, k] + ind(i, k))


@contract('wing data')
def wing_data(F, panels, g):
    """the stand-alone routine for panel data on the panels of the current harness: arrays about which nothing but their shape is assumed (their values: P07)"""
    d = PIPE
    P = F.asarr(panels)
    F.rows(P, d['K'])

    nc, ns = d['grid']

    def ok(i, j):
        w = d['corners'](i, j)
        return F.and_(*[F.zeros(P[i * ns + j, k, c] - w[k][c]) for k in range(4) for c in range(3)])
    F.require_all(nc, ok, ns)
    F.require(F.same(g, d['g']))
    return d['result']


@contract('circulation')
def circulation(F, A, b):
    """coefs.solve_eq on the system of the current harness: some solution (P03)"""
    d = PIPE
    A, b = F.asarr(A), F.asarr(b)
    F.rows(A, d['K'])
    F.rows(b, d['K'])
    F.require_all(d['K'], lambda i: F.zeros(b[i] - d['rhs'](i)))
    F.require_all(d['K'], lambda i, j: F.zeros(A[i, j] - d['system'](i, j)), d['K'])
    F.ensure(F.all(d['K'], lambda i: F.zeros(F.sum(d['K'], lambda j: d['system'](i, j) * d['gamma'][j]) - d['rhs'](i))))
    return d['gamma']


@contract('panel forces')
def panel_forces(F, Vw, G, rho, cp, R, ns, N, B, te, le, name, g):
    """the contract proved as P04 'force: force_xyz' (and 'lift', 'drag')"""
    Vw, G, cp, R, N, B, te, le = [F.asarr(x) for x in (Vw, G, cp, R, N, B, te, le)]
    K = F.dims(G)[0]
    for x in (Vw, cp, R, N, B, te, le):
        F.rows(x, K)
    F.require(F.lt(0, ns))
    none = F.decide(F.all(K, lambda i: F.not_(le[i])))
    F.require(none or F.all(ns, lambda i: le[i]))
    assert name in ('force_xyz', 'lift', 'drag')

    def unit(i, j):
        q = [F.v3(R, j, k) for k in range(4)]
        p = F.v3(cp, i)
        a, b = F.fn('shoe', p, *q, F.v3(Vw, j), g), F.fn('ring', p, *q, g)
        return [F.ite(te[j], x, y) for x, y in zip(a, b)]
    ind = lambda i, k: F.sum(K, lambda j: unit(i, j)[k] * G[j])
    Vi = F.build((K, 3), ind)
    Vc = F.build((K, 3), lambda i, k: Vw[i, k] + ind(i, k))

    def force(i, k):
        dg = F.ite(True if none else le[i], lambda: G[i], lambda: G[i] - G[i - ns])
        vel = F.v3({'force_xyz': Vc, 'lift': Vw, 'drag': Vi}[name], i)
        return rho * cross(vel, scale(dg, F.v3(B, i)))[k]
    return F.build((K, 3), force), Vc, Vi


@contract('acceptance')
def acceptance(F, V, panels, areas, normals):
    """accepted exactly when no panel is degenerate and nothing flows through any of them, otherwise an error (P03)"""
    A, W, N = F.asarr(areas), F.asarr(V), F.asarr(normals)
    K = F.dims(A)[0]
    nc, ns = PIPE.get('grid', (1, K))
    e12, e14 = F.div(F.num(1), F.num(10 ** 12)), F.div(F.num(1), F.num(10 ** 14))
    if F.decide(F.unknown_bool()):
        i = F.some(nc) * ns + F.some(ns)
        e = ValueError('suspicious solution')
        e.panel = i
        if F.decide(F.unknown_bool()):
            F.ensure(F.lt(A[i], e14))
        else:
            F.ensure(F.lt(e12, F.fabs(dot(F.v3(W, i), F.v3(N, i)))))
        raise e
    F.ensure(F.all(K, lambda i: F.ge(A[i], e14)))
    return True


def reliable(h, data, onset, te, g):
    """CPython: the system of the panels is well conditioned and its solution lets nothing through, far below the tolerance of the code"""
    import numpy as np
    m = h.mod('pySailingVLM.solver.coefs')
    N, ctr, R = data[0], data[1], data[3]
    V = np.array(onset, dtype=float)
    A, unitv = m.calc_velocity_coefs(V, ctr, R, N, te, g)
    if not np.isfinite(A).all() or np.linalg.cond(A) > 1e6:
        return False
    G = np.linalg.solve(A, -(V * N).sum(axis=1))
    flux = ((V + np.einsum('ijk,j->ik', unitv, G)) * N).sum(axis=1)
    size = np.abs(V * N).sum(axis=1) + (np.abs(unitv * N[:, None, :]).sum(axis=2) * np.abs(G)).sum(axis=1)
    return bool(np.abs(flux).max() < 5e-14 and 200 * np.finfo(float).eps * size.max() < 1e-12)
