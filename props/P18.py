"""reported tables"""
from pyvc.ob import ob
from props.spec import *
from props.P13 import Obj, results, rz, arm


@ob('P18', 'panel table', sizes=[{'c': 1}, {'c': 2}])
def full(h):
    """one row per panel; every column holds the quantity of its name"""
    n, c, H, K, t, v, names, r, cl, sl, lee, ref = results(h)
    d = h.table(r.to_df_full())
    vec3 = [('V_induced_COG', lambda i: h.v3(v.V_induced_at_cp, i)), ('V_app_fs_COG', lambda i: h.v3(v.V_app_fs_at_cp, i)),
            ('F_sails_COG', lambda i: h.v3(v.force, i)), ('M_sails_COG', lambda i: cross(arm(h, v, ref, i), h.v3(v.force, i))),
            ('F_sails_COW', lambda i: rz(h.v3(v.force, i), cl, sl))]

    def awa(i):
        return h.atan2(v.V_app_fs_at_cp[i, 1], v.V_app_fs_at_cp[i, 0]) * 180 / h.pi
    one = [('Circulation_magnitude', lambda i: v.gamma_magnitude[i]), ('Pressure', lambda i: v.pressure[i]),
           ('V_induced_length', lambda i: norm(h, h.v3(v.V_induced_at_cp, i))), ('V_app_fs_length', lambda i: norm(h, h.v3(v.V_app_fs_at_cp, i))),
           ('AWA_fs_COG_deg', awa), ('AWA_fs_COW_deg', lambda i: awa(i) - lee)]
    h.true('columns', sorted(d) == sorted(['%s.%s' % (a, x) for a, _ in vec3 for x in 'xyz'] + [a for a, _ in one]))
    for i in h.each(K):
        for a, f in vec3:
            w = f(i)
            for k, x in enumerate('xyz'):
                h.eq('%s.%s' % (a, x), d['%s.%s' % (a, x)][i], w[k])
        for a, f in one:
            h.eq(a, d[a][i], f(i))


def summary(h, keel):
    n, c, H, K, t, v, names, r, cl, sl, lee, ref = results(h)
    if keel:
        q = h.vec('q')
        r.estimate_heeling_moment_from_keel(q)
    d = h.table(r.to_df_integral())
    F = h.sum(H, lambda i: h.v3(v.force, i))
    M = h.sum(H, lambda i: cross(arm(h, v, ref, i), h.v3(v.force, i)))
    want = {}

    def put(name, vec, labels):
        for k, x in enumerate(labels):
            want[name + x] = vec[k]
    xyz = ['.x', '.y', '.z']
    cow = ['.x (heel)', '.y (pitch)', '.z (yaw)', '.z (yaw - JG sign)']
    jg = lambda w: list(w) + [-1 * w[2]]
    put('F_sails_total_COG', F, xyz)
    put('F_sails_total_COW', rz(F, cl, sl), xyz)
    put('M_sails_total_COG', M, xyz)
    put('M_sails_total_COW', jg(rz(M, cl, sl)), cow)
    if keel:
        N = cross(h.v3(q), [-1 * x for x in F])
        put('M_keel_total_COG', N, xyz)
        put('M_keel_total_COW', jg(rz(N, cl, sl)), cow)
        S = add(M, N)
        put('M_total_COG', S, xyz)
        put('M_total_COW', jg(rz(S, cl, sl)), cow)
    for s, nm in enumerate(names):
        put('F_%s_total_COG' % nm, h.sum(c, lambda i: h.v3(v.force, s * c + i)), xyz)
        put('M_%s_total_COG' % nm, h.sum(c, lambda i: cross(arm(h, v, ref, s * c + i), h.v3(v.force, s * c + i))), xyz)
    h.true('rows', sorted(d) == sorted(want))
    for k in want:
        h.eq(k, d[k], want[k])


@ob('P18', 'summary without keel', sizes=[{'c': 1}, {'c': 2}])
def nokeel(h):
    """totals over the above-water half, per sail and for the whole set, in course and centre-line axes"""
    summary(h, False)


@ob('P18', 'summary with keel', sizes=[{'c': 1}, {'c': 2}])
def withkeel(h):
    """adds the keel moment and the sum of sail and keel moments"""
    summary(h, True)
