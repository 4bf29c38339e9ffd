"""moments, totals, centre of effort, keel moment"""
from pyvc.ob import ob
from props.spec import *

Fo = 'pySailingVLM.solver.forces'
R = 'pySailingVLM.results.inviscid_flow'
Cs = 'pySailingVLM.rotations.csys_transformations'


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


@ob('P13', 'moment arms', sizes=[{'m': 1}, {'m': 3}])
def arms(h):
    """arm = point minus reference point; below the water the mirrored reference level is used; the input is not modified"""
    m = h.mod(Fo)
    K = h.dim('m', 1, 5)
    P, v = h.arr('P', (K, 3), specials=(0.0,)), h.vec('v')
    P0 = h.grid((K, 3), lambda i, k: P[i, k])
    r = m.calc_moment_arm_in_shifted_csys(P, v)
    h.shape('r', r, (K, 3))
    for i in h.each(K):
        h.eq('x', r[i, 0], P0[i, 0] - v[0])
        h.eq('y', r[i, 1], P0[i, 1] - v[1])
        h.eq('z', r[i, 2], h.ite(h.gt(P0[i, 2], 0), P0[i, 2] - v[2], P0[i, 2] + v[2]))
        h.eq('input unchanged', h.v3(P, i), h.v3(P0, i))


@ob('P13', 'moments', sizes=[{'m': 2}])
def moments(h):
    """moment = arm x force, per panel"""
    m = h.mod(Fo)
    K = h.dim('m', 1, 5)
    P, F = h.arr('P', (K, 3)), h.arr('F', (K, 3))
    r = m.calc_moments(P, F)
    h.shape('M', r, (K, 3))
    for i in h.each(K):
        h.eq('M', h.v3(r, i), cross(h.v3(P, i), h.v3(F, i)))


@ob('P13', 'vector from its dot and cross product')
def division(h):
    """the position of any force is recovered from its dot and cross product with that force"""
    m = h.mod(Fo)
    r, F = h.vec('r'), h.vec('F')
    x, f = h.v3(r), h.v3(F)
    h.assume(h.gt(n2(f), h.num('0.01')))
    h.eq('r', m.determine_vector_from_its_dot_and_cross_product(F, dot(x, f), h.array(cross(x, f))), x)


def results(h, table=False):
    n = h.int('n', 1, 3)
    c = h.dim('c', 1, 2)
    H = n * c
    K = 2 * H
    lee = h.real('lee', lo=-20, hi=20, wide=(-180, 180))
    ref = h.vec('ref')
    t = h.mod(Cs).CSYS_transformations(h.real('heel', lo=-40, hi=40, wide=(-180, 180)), lee, ref)
    v = Obj(gamma_magnitude=h.arr('G', (K,)), pressure=h.arr('p', (K,)), V_induced_at_cp=h.arr('Vi', (K, 3)),
            V_app_fs_at_cp=h.arr('Vf', (K, 3)), force=h.arr('F', (K, 3)), cp=h.arr('P', (K, 3)))
    h.assume_all(K, lambda i: h.gt(v.V_app_fs_at_cp[i, 0] * v.V_app_fs_at_cp[i, 0] + v.V_app_fs_at_cp[i, 1] * v.V_app_fs_at_cp[i, 1], 0))
    # the centre of effort of a vanishing force is not defined
    h.assume(h.gt(n2(h.sum(H, lambda i: h.v3(v.force, i))), h.num('0.0001')))
    names = ['jib', 'main_sail', 'mizzen'][:n]
    ss = Obj(sails=h.lst([Obj(name=x) for x in names]))
    res = h.mod(R).InviscidFlowResults(ss, t, v)
    return n, c, H, K, t, v, names, res, h.cos(lee * h.pi / 180), h.sin(lee * h.pi / 180), lee, h.v3(ref)


def arm(h, v, ref, i):
    p = h.v3(v.cp, i)
    return [p[0] - ref[0], p[1] - ref[1], h.ite(h.gt(p[2], 0), p[2] - ref[2], p[2] + ref[2])]


def rz(v, c, s): return [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]]


@ob('P13', 'forces and moments of the whole set', sizes=[{'c': 1}, {'c': 2}])
def totals(h):
    """per-panel moments about the reference point; totals are over the above-water half; centre-line values are turned by leeway"""
    n, c, H, K, t, v, names, r, cl, sl, lee, ref = results(h)
    h.shape('M', r.M_xyz, (K, 3))
    f = lambda i: h.v3(v.force, i)
    mo = lambda i: cross(arm(h, v, ref, i), f(i))
    for i in h.each(K):
        h.eq('force', h.v3(r.F_xyz, i), f(i))
        h.eq('moment', h.v3(r.M_xyz, i), mo(i))
        h.eq('centre-line force', h.v3(r.F_centerline, i), rz(f(i), cl, sl))
        h.eq('centre-line moment', h.v3(r.M_centerline_csys, i), rz(mo(i), cl, sl))
    Ft = h.sum(H, f)
    Mt = h.sum(H, mo)
    h.eq('total force', h.v3(r.F_xyz_total), Ft)
    h.eq('total moment', h.v3(r.M_total_above_water_in_xyz_csys), Mt)
    h.eq('total centre-line force', h.v3(r.F_centerline_total), rz(Ft, cl, sl))
    h.eq('total centre-line moment', h.v3(r.M_total_above_water_in_centerline_csys), rz(Mt, cl, sl))
    rf = h.sum(H, lambda i: dot(arm(h, v, ref, i), f(i)))
    x = cross(Ft, Mt)
    h.eq('centre of effort', h.v3(r.above_water_centre_of_effort_estimate_xyz), [h.div(x[k] + Ft[k] * rf, n2(Ft)) for k in range(3)])


@ob('P13', 'forces and moments of each sail', sizes=[{'c': 1}, {'c': 2}])
def persail(h):
    """each sail's entry sums the above-water panels of that sail only"""
    n, c, H, K, t, v, names, r, cl, sl, lee, ref = results(h)
    d = r.dyn_dict
    h.true('labels', sorted(d) == sorted('%s_%s_total_COG.%s' % (q, nm, x) for q in 'FM' for nm in names for x in 'xyz'))
    for s, nm in enumerate(names):
        F = h.sum(c, lambda i: h.v3(v.force, s * c + i))
        M = h.sum(c, lambda i: cross(arm(h, v, ref, s * c + i), h.v3(v.force, s * c + i)))
        for k, x in enumerate('xyz'):
            h.eq('F_' + nm, d['F_%s_total_COG.%s' % (nm, x)], F[k])
            h.eq('M_' + nm, d['M_%s_total_COG.%s' % (nm, x)], M[k])


@ob('P13', 'keel moment', sizes=[{'c': 1}])
def keel(h):
    """the keel moment is that of the opposite of the total sail force at the given point, also in centre-line axes"""
    n, c, H, K, t, v, names, r, cl, sl, lee, ref = results(h)
    q = h.vec('q')
    r.estimate_heeling_moment_from_keel(q)
    Ft = h.sum(H, lambda i: h.v3(v.force, i))
    M = cross(h.v3(q), [-1 * x for x in Ft])
    h.eq('moment', h.v3(r.M_xyz_underwater_estimate_total), M)
    h.eq('centre-line moment', h.v3(r.M_centerline_csys_underwater_estimate_total), rz(M, cl, sl))
