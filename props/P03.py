"""the solved circulation meets the no-penetration condition; suspicious solutions are rejected"""
from pyvc.ob import ob
from props.spec import *

V = 'pySailingVLM.solver.velocity'
C = 'pySailingVLM.solver.coefs'
Fo = 'pySailingVLM.solver.forces'
KS = [(V + ':vortex_ring', 'ring'), (V + ':vortex_horseshoe_v2', 'shoe')]


@ob('P03', 'right-hand side', sizes=[{'m': 1}, {'m': 3}])
def rhs(h):
    """right-hand side i = minus the component of the onset velocity along normal i"""
    m = h.mod(C)
    K = h.dim('m', 1, 5)
    Vw, N = h.arr('Vw', (K, 3)), h.arr('N', (K, 3))
    r = m.calculate_RHS(Vw, N)
    h.shape('RHS', r, (K,))
    for i in h.each(K):
        h.eq('RHS[i]', r[i], -1 * dot(h.v3(Vw, i), h.v3(N, i)))


@ob('P03', 'solution of the linear system', sizes=[{'m': 1}, {'m': 3}])
def solve(h):
    """the circulation solves the linear system: sum_j A[i,j] G[j] = b[i]"""
    m = h.mod(C)
    K = h.dim('m', 1, 5)
    A, b = h.arr('A', (K, K)), h.arr('b', (K,))
    h.assume(well(h, A, K))
    g = m.solve_eq(A, b)
    h.shape('gamma', g, (K,))
    for i in h.each(K):
        h.eq('row i', h.sum(K, lambda j: A[i, j] * g[j]), b[i])


def well(h, A, K):
    """CPython only: skip nearly singular samples (regularity of the system is a precondition)"""
    if h.sym:
        return True
    import numpy as np
    return bool(np.linalg.cond(np.asarray(A, dtype=float)) < 1e5)


def size(K, co, G, N, V):
    """CPython only: the magnitude of the terms that cancel"""
    import numpy as np
    return 1 + K * float(np.abs(co).max() * np.abs(G).max()) + 3 * float(np.abs(N).max() * np.abs(V).max())


@ob('P03', 'no penetration', contracts=KS, sizes=[{'m': 2}])
def nopen(h):
    """coefficients, right-hand side, solve and velocity assembly together: the total velocity has no component along any panel normal"""
    c, v = h.mod(C), h.mod(V)
    K = h.dim('m', 1, 4)
    Vw, P, N = h.arr('Vw', (K, 3), specials=(1.0,)), h.arr('P', (K, 3)), h.arr('N', (K, 3))
    R = h.arr('R', (K, 4, 3))
    te = h.arr('te', (K,), kind='b')
    g = h.real('g')
    co, vi = c.calc_velocity_coefs(Vw, P, R, N, te, g)
    h.assume(well(h, co, K))
    G = c.solve_eq(co, c.calculate_RHS(Vw, N))
    _, tot = v.calculate_app_fs(Vw, vi, G)
    kw = {} if h.sym else {'scale': size(K, co, G, N, Vw)}
    for i in h.each(K):
        h.eq('flux[i]', dot(h.v3(tot, i), h.v3(N, i)), 0, **kw)


@ob('P03', 'acceptance of the solution', sizes=[{'m': 1}, {'m': 2}])
def accept(h):
    """accepted exactly when every panel area is at least 1e-14 and every normal velocity is at most 1e-12 in size; otherwise an error"""
    f = h.mod(Fo)
    K = h.dim('m', 1, 3)
    A = h.arr('A', (K,), specials=(1e-15, 1e-13, 0.0, 0.5, -1.0, 1.0, 2.0, 3.0))
    N = h.arr('N', (K, 3), specials=(0.0, 1e-13, 1e-11))
    W = h.arr('W', (K, 3), specials=(0.0, 0.0, 0.0, 0.0))
    P = h.arr('P', (K, 4, 3))
    if not h.sym:
        # make most samples acceptable
        if h.env.u('ok') < 0.8:
            A = abs(A) + 1e-3
        if h.env.u('okv') < 0.8:
            W = W * 1e-13
    out = h.outcome(lambda: f.is_no_flux_BC_satisfied(W, P, A, N))
    e12, e14 = h.div(1, 10 ** 12), h.div(1, 10 ** 14)
    good = h.and_(h.all(K, lambda i: h.ge(A[i], e14)), h.all(K, lambda i: h.le(h.fabs(dot(h.v3(W, i), h.v3(N, i))), e12)))
    if out.ok:
        h.true('accepted only if sound', good)
        h.true('returns true', out.val)
    else:
        h.true('rejected only if suspicious', h.not_(good))
        h.true('rejected with an error', isinstance(out.val, ValueError))


@ob('P03', 'not-a-number results are rejected', sym=False, bounded='sampled positions')
def nans(h):
    """an undefined area or flux is never accepted"""
    f = h.mod(Fo)
    K = h.dim('m', 1, 4)
    A = h.arr('A', (K,), lo=0.1, hi=2)
    N = h.arr('N', (K, 3))
    W = h.grid((K, 3), lambda i, k: 0.0)
    i = h.int('i', 0, 3) % K
    if h.bool('where'):
        A[i] = float('nan')
    else:
        W[i, h.int('k', 0, 2)] = float('nan')
    h.made(A, W)
    out = h.outcome(lambda: f.is_no_flux_BC_satisfied(W, h.grid((K, 4, 3), lambda *a: 0.0), A, N))
    h.true('rejected', out.raised and isinstance(out.val, ValueError))
