"""apparent wind at the panels"""
from pyvc.ob import ob
from props.spec import *

W = 'pySailingVLM.inlet.winds'
I = 'pySailingVLM.inlet.inlet_conditions'
Cs = 'pySailingVLM.rotations.csys_transformations'
KINDS = ['FlatWindProfile', 'LogWindProfile', 'ExpWindProfile']


def setup(h, kind=None):
    w = h.mod(W)
    k = kind or h.choice('profile', KINDS)
    a, t, s = h.real('alpha', lo=5, hi=175, wide=(-180, 180)), h.real('tws', lo=0.5, hi=30, wide=(0.001, 300)), h.real('sog', lo=0, hi=12, wide=(0, 200))
    wind = getattr(w, k)(a, t, s)
    K = h.dim('m', 1, 5)
    P = h.arr('P', (K, 3))
    h.assume_all(K, lambda i: h.gt(h.fabs(P[i, 2]), h.num('0.01')))
    rho = h.real('rho', lo=0.1)
    return wind, k, a, t, s, K, P, rho


def speed(h, k, t, z):
    """wind speed at height z for the default parameters of each profile"""
    if k == 'FlatWindProfile':
        return t
    if k == 'LogWindProfile':
        return h.div(t * h.log(h.div(z, h.num('0.05'))), h.log(h.div(10, h.num('0.05'))))
    return t * h.rpow(h.div(z, 10), h.num('0.1428'))


@ob('P12', 'true and apparent wind at every panel', sizes=[{'m': 2}])
def at(h):
    """wind at |z| of each centre of pressure (the mirror image sees the same wind), plus boat speed along x"""
    wind, k, a, t, s, K, P, rho = setup(h)
    c = h.mod(I).InletConditions(wind, rho, P)
    h.shape('tws', c.tws_at_cp, (K, 3))
    h.shape('V', c.V_app_infs, (K, 3))
    h.eq('rho', c.rho, rho)
    al = a * h.pi / 180
    for i in h.each(K):
        w = speed(h, k, t, h.fabs(P[i, 2]))
        v = [w * h.cos(al), w * h.sin(al), 0]
        h.eq('true wind', h.v3(c.tws_at_cp, i), v)
        h.eq('apparent wind', h.v3(c.V_app_infs, i), [v[0] + s, v[1], v[2]])
        h.eq('true wind length', c.tws_length_at_ctr_points[i], norm(h, v))
        h.eq('apparent wind length', c.V_app_infs_length[i], norm(h, [v[0] + s, v[1], v[2]]))
        h.eq('apparent wind angle', c.AWA_infs_deg[i], h.atan2(v[1], v[0] + s) * 180 / h.pi)


@ob('P12', 'table of inlet conditions', sizes=[{'m': 2}])
def table(h):
    """one row per panel; each column holds the quantity of its name, and the centre-line angle is the course angle minus leeway"""
    wind, k, a, t, s, K, P, rho = setup(h, 'FlatWindProfile')
    lee = h.real('lee', lo=-20, hi=20, wide=(-180, 180))
    c = h.mod(I).InletConditions(wind, rho, P)
    T = h.mod(Cs).CSYS_transformations(0, lee)
    d = h.table(c.to_df_full(T))
    vec3 = [('cp_points_COG', P), ('TWS_COG', c.tws_at_cp), ('V_app_infs_COG', c.V_app_infs)]
    names = ['%s.%s' % (n, x) for n, _ in vec3 for x in 'xyz'] + ['TWS_length', 'V_app_infs_length', 'AWA_infs_COG_deg', 'AWA_infs_COW_deg']
    h.true('columns', sorted(d) == sorted(names))
    for i in h.each(K):
        for n, arr in vec3:
            for q, x in enumerate('xyz'):
                h.eq('%s.%s' % (n, x), d['%s.%s' % (n, x)][i], arr[i, q])
        h.eq('TWS_length', d['TWS_length'][i], norm(h, h.v3(c.tws_at_cp, i)))
        h.eq('V_length', d['V_app_infs_length'][i], norm(h, h.v3(c.V_app_infs, i)))
        awa = h.atan2(c.V_app_infs[i, 1], c.V_app_infs[i, 0]) * 180 / h.pi
        h.eq('AWA COG', d['AWA_infs_COG_deg'][i], awa)
        h.eq('AWA COW', d['AWA_infs_COW_deg'][i], awa - lee)


@ob('P12', 'reference wind summary of the exponential profile')
def expint(h):
    """the summary holds the wind at the reference height"""
    w = h.mod(W)
    a, t, s = h.real('alpha', lo=5, hi=175, wide=(-180, 180)), h.real('tws', lo=0.5, hi=30, wide=(0.001, 300)), h.real('sog', lo=0, hi=12, wide=(0, 200))
    e, H, l, lee = h.real('e', lo=0.01, hi=0.5, wide=(0.0001, 3)), h.real('H', lo=2, hi=40, wide=(1.01, 2000)), h.real('lev', lo=-2, hi=0.9, wide=(-50, 0.9)), h.real('lee', lo=-20, hi=20, wide=(-180, 180))
    wind = w.ExpWindProfile(a, t, s, e, H, l)
    d = h.table(wind.to_df_integral(h.mod(Cs).CSYS_transformations(0, lee)))
    sp, al = t * h.rpow(h.div(H - l, H), e), a * h.pi / 180
    v = [sp * h.cos(al), sp * h.sin(al), 0]
    u = [v[0] + s, v[1], v[2]]
    awa = h.atan2(u[1], u[0]) * 180 / h.pi
    want = [('Reference_measurement_height', H), ('Reference_water_level_for_wind_profile', l)]
    want += [('TWS_at_reference_height_COG.%s' % x, v[q]) for q, x in enumerate('xyz')]
    want += [('TWS_length_at_reference_height', norm(h, v))]
    want += [('V_app_infs_at_reference_height_COG.%s' % x, u[q]) for q, x in enumerate('xyz')]
    want += [('V_app_infs_length_at_reference_height_COG', norm(h, u)), ('AWA_infs_at_reference_height_COG_deg', awa),
             ('AWA_infs_at_reference_height_COW_deg', awa - lee)]
    h.true('rows', sorted(d) == sorted(n for n, _ in want))
    for n, x in want:
        h.eq(n, d[n], x)
