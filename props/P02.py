"""influence coefficients and induced velocities"""
from pyvc.ob import ob
from props.spec import *

V = 'pySailingVLM.solver.velocity'
C = 'pySailingVLM.solver.coefs'
KS = [(V + ':vortex_ring', 'ring'), (V + ':vortex_horseshoe_v2', 'shoe')]


@ob('P02', 'influence coefficients', contracts=KS, sizes=[{'m': 2}])
def coefs(h):
    """entry (i,j): velocity at point i of unit vortex j (closed ring; open to infinity along the local wind at a trailing edge), and its component along normal i"""
    m = h.mod(C)
    K = h.dim('m', 1, 4)
    Vw, P, N = h.arr('Vw', (K, 3)), h.arr('P', (K, 3)), h.arr('N', (K, 3))
    R = h.arr('R', (K, 4, 3))
    te = h.arr('te', (K,), kind='b')
    g = h.real('g')
    co, vi = m.calc_velocity_coefs(Vw, P, R, N, te, g)
    h.shape('coefs', co, (K, K))
    h.shape('velocity', vi, (K, K, 3))
    for i, j in h.each(K, K):
        q = [h.v3(R, j, k) for k in range(4)]
        p = h.v3(P, i)
        w = h.ite(te[j], lambda: h.fn('shoe', p, q[0], q[1], q[2], q[3], h.v3(Vw, j), g),
                  lambda: h.fn('ring', p, q[0], q[1], q[2], q[3], g))
        h.eq('velocity[i,j]', h.v3(vi, i, j), w)
        h.eq('coef[i,j]', co[i, j], dot(w, h.v3(N, i)))


@ob('P02', 'induced velocity', sizes=[{'m': 1}, {'m': 3}])
def induced(h):
    """velocity at i = sum over all vortices j of unit velocity (i,j) times circulation j"""
    m = h.mod(V)
    K = h.dim('m', 1, 5)
    vi, G = h.arr('vi', (K, K, 3)), h.arr('G', (K,))
    r = m.calc_induced_velocity(vi, G)
    h.shape('V', r, (K, 3))
    for i in h.each(K):
        for k in range(3):
            h.eq('V[i,%d]' % k, r[i, k], h.sum(K, lambda j: vi[i, j, k] * G[j]))


@ob('P02', 'apparent velocity', sizes=[{'m': 2}])
def app(h):
    """total velocity = onset velocity + induced velocity; the onset array is not modified"""
    m = h.mod(V)
    K = h.dim('m', 1, 5)
    Vw, vi, G = h.arr('Vw', (K, 3)), h.arr('vi', (K, K, 3)), h.arr('G', (K,))
    V0 = h.grid((K, 3), lambda i, k: Vw[i, k])
    vind, vfs = m.calculate_app_fs(Vw, vi, G)
    h.shape('V', vfs, (K, 3))
    for i in h.each(K):
        for k in range(3):
            s = h.sum(K, lambda j: vi[i, j, k] * G[j])
            h.eq('Vind[i,%d]' % k, vind[i, k], s)
            h.eq('V[i,%d]' % k, vfs[i, k], V0[i, k] + s)
            h.eq('onset unchanged[i,%d]' % k, Vw[i, k], V0[i, k])
