"""strip, sail and wing coefficients"""
from pyvc.ob import ob
from props.spec import *
from props.P13 import Obj

C = 'pySailingVLM.solver.coefs'


def flow(h):
    k = h.int('k', 1, 2)
    ns, nc = h.dim('ns', 1, 4), h.dim('nc', 1, 4)
    K = 2 * k * ns * nc
    A = h.arr('A', (K,), lo=0.5, hi=2, wide=(0.001, 100))
    F, D, V = h.arr('F', (K, 3)), h.arr('D', (K, 3)), h.arr('V', (K, 3))
    h.assume_all(K, lambda i: h.gt(A[i], 0))
    h.assume_all(K, lambda i: h.gt(n2(h.v3(V, i)), 0))
    return k, ns, nc, K, A, F, D, V, h.real('rho', lo=0.1, hi=5, wide=(0.001, 2000)), h.arr('Q', (K, 4, 3))


def strip(h, A, F, V, rho, ns, nc, i, j):
    """sum of area-weighted force coefficients of the panels of strip j of sail i, over the strip area"""
    at = lambda r: i * ns * nc + r * ns + j
    f = lambda r: h.div(norm(h, h.v3(F, at(r))), h.num('0.5') * rho * n2(h.v3(V, at(r))))
    return h.div(h.sum(nc, f), h.sum(nc, lambda r: A[at(r)]))


@ob('P19', 'strip coefficients', sizes=[{'ns': 1, 'nc': 1}, {'ns': 2, 'nc': 3}])
def strips(h):
    """one row per sail above the water, one entry per spanwise strip: force size over dynamic pressure, area averaged along the strip"""
    k, ns, nc, K, A, F, D, V, rho, Q = flow(h)
    r = h.mod(C).get_C(Q, A, F, V, ns, nc, rho)
    h.shape('C', r, (k, ns))
    for i in range(k):
        for j in h.each(ns):
            h.eq('strip', r[i, j], strip(h, A, F, V, rho, ns, nc, i, j))


@ob('P19', 'data of the coefficient plot', sizes=[{'ns': 1, 'nc': 1}, {'ns': 2, 'nc': 3}])
def plot(h):
    """per sail: mean height of each strip, and the lift and drag coefficient of each strip over that of the whole sail"""
    k, ns, nc, K, A, F, D, V, rho, Q = flow(h)
    P = h.arr('P', (K, 3))
    h.assume_all(K, lambda i: h.gt(n2(h.v3(F, i)), 0))
    h.assume_all(K, lambda i: h.gt(n2(h.v3(D, i)), 0))
    v = Obj(panels=Q, areas=A, lift=F, drag=D, inlet_conditions=Obj(V_app_infs=V), n_spanwise=ns, n_chordwise=nc, rho=rho, cp=P)
    z, y1, y2 = h.mod(C).get_data_for_coeff_plot(v, Obj(n_spanwise=ns, n_chordwise=nc))
    h.shape('z', z, (k, ns))
    h.eq('lift sails', h.len(y1), k)
    h.eq('drag sails', h.len(y2), k)
    for i in range(k):
        area = lambda j: h.sum(nc, lambda r: A[i * ns * nc + r * ns + j])
        for nm, y, X in (('lift', y1, F), ('drag', y2, D)):
            c = lambda j: strip(h, A, X, V, rho, ns, nc, i, j)
            whole = h.div(h.sum(ns, lambda j: area(j) * c(j)), h.sum(ns, area))
            h.shape(nm, y[i], (ns,))
            for j in h.each(ns):
                h.eq(nm, y[i][j], h.div(c(j), whole))
        for j in h.each(ns):
            h.eq('height', z[i, j], h.div(h.sum(nc, lambda r: P[i * ns * nc + r * ns + j, 2]), nc))


def wing(h):
    K = h.dim('m', 1, 5)
    F, V = h.arr('F', (K, 3)), h.vec('V')
    h.assume(h.gt(n2(h.v3(V)), h.num('0.01')))
    return K, F, V, h.real('rho', lo=0.1, hi=5, wide=(0.001, 2000)), h.real('S', lo=0.1, hi=50, wide=(0.001, 5000))


@ob('P19', 'wing lift and drag coefficients', sizes=[{'m': 2}])
def clcd(h):
    """total force along z and x over dynamic pressure times reference area"""
    K, F, V, rho, S = wing(h)
    cl, cd = h.mod(C).get_vlm_CL_CD_free_wing(F, V, rho, S)
    q = h.num('0.5') * rho * n2(h.v3(V)) * S
    h.eq('CL', cl, h.div(h.sum(K, lambda i: F[i, 2]), q))
    h.eq('CD', cd, h.div(h.sum(K, lambda i: F[i, 0]), q))


@ob('P19', 'force coefficients', sizes=[{'m': 2}])
def cxyz(h):
    """total force over dynamic pressure times reference area"""
    K, F, V, rho, S = wing(h)
    c = h.mod(C).get_vlm_Cxyz(F, V, rho, S)
    q = h.num('0.5') * rho * n2(h.v3(V)) * S
    for x in range(3):
        h.eq('C', c[x], h.div(h.sum(K, lambda i: F[i, x]), q))


@ob('P19', 'expected coefficients of a wing')
def book(h):
    """lift slope 2 pi/(1 + 2/(0.8 AR)) per radian; induced drag CL^2/(0.8 pi AR)"""
    AR, a = h.real('AR', lo=0.5, hi=40, wide=(0.05, 500)), h.real('aoa', lo=-20, hi=20, specials=(0.0,), wide=(-180, 180))
    cl, cd = h.mod(C).get_CL_CD_free_wing(AR, a)
    e = h.num('0.8')
    w = h.div(2 * h.pi, 1 + h.div(2, AR * e)) * a * h.pi / 180
    h.eq('CL', cl, w)
    h.eq('CD', cd, h.div(w * w, h.pi * AR * e))
