"""the vortex lattice calculation as a whole: the reported quantities belong together"""
from pyvc.ob import ob
from props import spec
from props.spec import *
from props.P12 import speed, KINDS

V = 'pySailingVLM.solver.velocity'
C = 'pySailingVLM.solver.coefs'
Vl = 'pySailingVLM.solver.vlm'
W = 'pySailingVLM.inlet.winds'
KS = [(C + ':calc_velocity_coefs', 'influence coefficients'), (V + ':calculate_app_fs', 'superposition'), (C + ':calculate_vlm_variables', 'panel data')]
NAMES = ('normals', 'ctr_p', 'cp', 'rings', 'span_vectors', 'leading_mid_points', 'trailing_mid_points')


def case(h, kind):
    """panels of G grids in the wind; leading and trailing edge information as the panel makers give it"""
    Gn, nc, ns = h.dim('G', 1, 2), h.dim('nc', 1, 2), h.dim('ns', 1, 2)
    n = nc * ns
    K = Gn * n
    P = h.arr('P', (K, 4, 3))
    te, le = h.arr('te', (K,), kind='b', p=0.4), h.arr('le', (K,), kind='b', p=0.4)
    if not h.sym:
        if n * Gn > 8:
            from pyvc.fops import Skip
            raise Skip('size')
        for q in range(K):
            if q % n >= n - ns:
                te[q] = True
        if le[0]:
            le[:ns] = True
        else:
            le[:] = False
        if h.env.u('tiny') < 0.1:
            P = P * 1e-8
        h.made(te, le, P)
    h.assume_all(Gn, lambda a: h.all(n, lambda k: h.or_(te[a * n + k], h.lt(k, n - ns))))
    h.assume(h.or_(h.all(ns, lambda i: le[i]), h.all(K, lambda i: h.not_(le[i]))))
    a, t, s = h.real('alpha', lo=5, hi=175, wide=(-180, 180)), h.real('tws', lo=0.5, hi=30, wide=(0.001, 300)), h.real('sog', lo=0, hi=12, wide=(0, 200))
    wind = getattr(h.mod(W), kind)(a, t, s)
    return K, nc, ns, P, te, le, wind, a * h.pi / 180, t, s, h.real('rho', lo=0.1, hi=2, wide=(0.001, 2000))


def unit(h, p, R, Vw, te, g, j):
    q = [h.v3(R, j, k) for k in range(4)]
    return h.ite(te[j], lambda: h.fn('shoe', p, q[0], q[1], q[2], q[3], h.v3(Vw, j), g), lambda: h.fn('ring', p, q[0], q[1], q[2], q[3], g))


def whole(kind, given):
    def fn(h):
        """one calculation: geometry of the panels, wind at the centres of pressure, circulation without flow through the panels, forces, pressures and coefficients all belong to
        the same panels, wind and circulation"""
        K, nc, ns, P, te, le, wind, al, t, s, rho = case(h, kind)
        g = h.real('g', lo=0.2, hi=2, wide=(0.001, 100)) if given else h.num(-1)
        data = [h.arr('r_' + x, sh) for x, sh in zip(NAMES, ((K, 3), (K, 3), (K, 3), (K, 4, 3), (K, 3), (K, 3), (K, 3)))] if h.sym else None
        spec.PIPE.clear()
        spec.PIPE.update(P=P, te=te, g=g, nc=nc, ns=ns, K=K, result=tuple(data) if data else None)
        make = h.mod(Vl).Vlm
        if h.sym:
            h.assume_all(K, lambda i: h.gt(h.fabs(data[2][i, 2]), h.num('0.01')))
        else:
            data = h.mod(C).calculate_vlm_variables(P, te, g, nc, ns)
            h.assume_all(K, lambda i: h.gt(h.fabs(data[2][i, 2]), 0.01))
        def onset(i):
            w = speed(h, kind, t, h.fabs(data[2][i, 2]))
            return [w * h.cos(al) + s, w * h.sin(al), 0]
        h.assume_all(K, lambda i: h.gt(n2(onset(i)), h.num('0.0001')))      # there is wind at every panel
        o = h.outcome(lambda: make(P, nc, ns, rho, wind, te, le, g) if given else make(P, nc, ns, rho, wind, te, le))
        def area(i):
            e = [sub(h.v3(P, i, k + 1), h.v3(P, i, k)) for k in range(3)]
            return (norm(h, cross(e[0], e[1])) + norm(h, cross(e[1], e[2]))) / 2
        if not o.ok:
            h.true('rejected with an error', isinstance(o.val, (ValueError, AssertionError)) or not h.sym and 'Singular' in str(o.val))
            sound = h.all(K, lambda i: h.ge(area(i), h.div(1, 10 ** (14 if h.sym else 8))))
            if not h.sym:
                sound = sound and reliable(h, data, [onset(i) for i in range(K)], te, g)
            return h.true('rejected only if suspicious', h.not_(sound), soft=True)
        v = o.val
        N, ctr, cp, R, B = data[:5]
        for nm, x in zip(NAMES, data):
            for i in h.each(K):
                if nm == 'rings':
                    for k in range(4):
                        h.eq(nm, h.v3(v.rings, i, k), h.v3(R, i, k))
                else:
                    h.eq(nm, h.v3(getattr(v, nm), i), h.v3(x, i))
        Vw = v.inlet_conditions.V_app_infs
        G = v.gamma_magnitude
        h.shape('circulation', G, (K,))
        for i in h.each(K):
            w = speed(h, kind, t, h.fabs(cp[i, 2]))
            inf = [w * h.cos(al) + s, w * h.sin(al), 0]
            h.eq('onset velocity', h.v3(Vw, i), inf)
            h.true('no degenerate panel', h.ge(v.areas[i], h.div(1, 10 ** 14)))
            h.eq('area', v.areas[i], area(i))

        def ind(p):
            return [h.sum(K, lambda j, k=k: unit(h, p, R, Vw, te, g, j)[k] * G[j]) for k in range(3)]
        none = h.all(K, lambda i: h.not_(le[i]))
        for i in h.each(K):
            inf = h.v3(Vw, i)
            q = ind(h.v3(ctr, i))
            kw = {} if h.sym else {'scale': 1 + max(abs(x) for x in inf + q)}
            h.eq('induced velocity at control point', h.v3(v.V_induced_at_ctrl, i), q, **kw)
            h.eq('velocity at control point', h.v3(v.V_app_fs_at_ctrl_p, i), add(inf, q), **kw)
            h.eq('no flow through the panel', dot(add(inf, q), h.v3(N, i)), 0, **kw)
            c = ind(h.v3(cp, i))
            tot = add(inf, c)
            h.eq('induced velocity at centre of pressure', h.v3(v.V_induced_at_cp, i), c)
            h.eq('velocity at centre of pressure', h.v3(v.V_app_fs_at_cp, i), tot)
            dg = h.ite(h.or_(le[i], none), lambda: G[i], lambda: G[i] - G[i - ns])
            b = h.v3(B, i)
            for nm, x, got in (('force', tot, v.force), ('lift', inf, v.lift), ('drag', c, v.drag)):
                h.eq(nm, h.v3(got, i), scale(rho, cross(x, scale(dg, b))))
            F = h.v3(v.force, i)
            p = h.div(dot(F, h.v3(N, i)), v.areas[i])
            h.eq('pressure', v.pressure[i], p)
            h.eq('pressure coefficient', v.p_coeffs[i], h.div(2 * v.pressure[i], rho * n2(inf)))
    return fn


for _k in KINDS:
    ob('P21', 'whole calculation, ' + _k, contracts=KS, budget=60, trials=60)(whole(_k, False))
ob('P21', 'whole calculation, given orientation', contracts=KS, budget=60, trials=60)(whole('FlatWindProfile', True))
