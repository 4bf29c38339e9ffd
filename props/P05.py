"""pressure and pressure coefficient"""
from pyvc.ob import ob
from props.spec import *

Fo = 'pySailingVLM.solver.forces'


@ob('P05', 'pressure', sizes=[{'m': 2}])
def pressure(h):
    """pressure i = force i . normal i / area i"""
    m = h.mod(Fo)
    K = h.dim('m', 1, 5)
    Fc, N, A = h.arr('Fc', (K, 3)), h.arr('N', (K, 3)), h.arr('A', (K,), lo=0.01, hi=3, wide=(0.000001, 1000))
    p = m.calc_pressure(Fc, N, A)
    h.shape('p', p, (K,))
    for i in h.each(K):
        h.eq('p[i]', p[i], h.div(dot(h.v3(Fc, i), h.v3(N, i)), A[i]))


@ob('P05', 'pressure coefficient', sizes=[{'m': 2}])
def cp(h):
    """coefficient i = pressure i / (rho/2 |V_i|^2) with the local onset velocity"""
    m = h.mod(Fo)
    K = h.dim('m', 1, 5)
    p, W, rho = h.arr('p', (K,)), h.arr('W', (K, 3)), h.real('rho', lo=0.1, wide=(0.001, 2000))
    h.assume_all(K, lambda i: h.gt(n2(h.v3(W, i)), 0))
    c = m.calc_pressure_coeff(p, rho, W)
    h.shape('cp', c, (K,))
    for i in h.each(K):
        h.eq('cp[i]', c[i], h.div(2 * p[i], rho * n2(h.v3(W, i))))
