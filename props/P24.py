"""the free wing"""
from pyvc.ob import ob
from props import spec
from props.spec import *

V = 'pySailingVLM.solver.velocity'
C = 'pySailingVLM.solver.coefs'
A = 'pySailingVLM.runner.aircraft'
Fo = 'pySailingVLM.solver.forces'
KS = [(C + ':calc_velocity_coefs', 'influence coefficients'), (V + ':calculate_app_fs', 'superposition'), (C + ':solve_eq', 'circulation'),
      (Fo + ':calc_force_wrapper', 'panel forces'), (Fo + ':is_no_flux_BC_satisfied', 'acceptance'),
      (C + ':calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points', 'wing data')]


def wing(given):
    def fn(h):
        """a rectangular wing spanning along z, turned by the angle of attack: its forces, pressures and coefficients"""
        nc, ns = h.dim('nc', 1, 3), h.dim('ns', 1, 3)
        one = bool(h.same(nc, 1))
        nc = 1 if one else nc
        K = nc * ns
        c, b, aoa = h.real('c', lo=1e-18, hi=3), h.real('b', lo=0.5, hi=8, wide=(0.05, 100)), h.real('aoa', lo=-85, hi=85, specials=(0.0,), wide=(-180, 180))
        if not h.sym:
            c = c * 1e-15 if h.env.u('tiny') < 0.1 else c + 0.2
        W = h.vec('W', lo=-20, hi=20, wide=(-300, 300))
        h.assume(h.gt(n2(h.v3(W)), h.num('0.1')))
        rho = h.real('rho', lo=0.1, hi=2, wide=(0.001, 2000)) if given else h.num('1.225')
        g = h.real('g', lo=0.2, hi=2, wide=(0.001, 100)) if given else h.num(1)
        al = aoa * h.pi / 180

        def pt(i, j):
            x, z = h.div(c * i, nc), h.div(2 * b * j, ns) - b
            return [x * h.cos(al), -1 * x * h.sin(al), z]

        def corners(i, j): return [pt(i + 1, j), pt(i, j), pt(i, j + 1), pt(i + 1, j + 1)]
        last = lambda i: h.same(i, nc - 1)
        first = lambda i: h.and_(h.same(i, 0), h.not_(last(i)))
        w = h.v3(W)

        def unit(p, q):
            r = [h.v3(data[3], q, k) for k in range(4)]
            return h.ite(last(h.idiv(q, ns)), lambda: h.fn('shoe', p, *r, w, g), lambda: h.fn('ring', p, *r, g))

        if h.sym:
            data = [h.arr('r_' + x, sh) for x, sh in zip(('N', 'ctr', 'cp', 'R', 'B', 'lm', 'tm'), ((K, 3), (K, 3), (K, 3), (K, 4, 3), (K, 3), (K, 3), (K, 3)))]
            G = h.arr('G', (K,))
            spec.PIPE.clear()
            spec.PIPE.update(K=K, g=g, grid=(nc, ns), corners=corners, result=tuple(data), gamma=G, rhs=lambda i: -1 * dot(w, h.v3(data[0], i)),
                             system=lambda i, q: dot(unit(h.v3(data[1], i), q), h.v3(data[0], i)))
        o = h.outcome(lambda: h.mod(A).Aircraft(c, b, aoa, ns, nc, W, rho, g) if given else h.mod(A).Aircraft(c, b, aoa, ns, nc, W))
        def area(i, j):
            x = corners(i, j)
            e = [sub(x[k + 1], x[k]) for k in range(3)]
            return (norm(h, cross(e[0], e[1])) + norm(h, cross(e[1], e[2]))) / 2
        if not h.sym:
            m = h.mod(C)
            P = h.array([corners(i, j) for i in range(nc) for j in range(ns)])
            data = m.calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points(P, g)
            te = h.array([last(i) for i in range(nc) for j in range(ns)])
        if not o.ok:
            h.true('rejected with an error', isinstance(o.val, (ValueError, AssertionError)) or not h.sym and 'Singular' in str(o.val))
            q = getattr(o.val, 'panel', 0)
            i = h.idiv(q, ns) if h.sym else 0
            h.hint(q)
            sound = h.ge(area(i, q - i * ns), h.div(1, 10 ** (14 if h.sym else 8)))
            if not h.sym:
                sound = sound and reliable(h, data, [w] * K, te, g)
            return h.true('rejected only if suspicious', h.not_(sound), soft=True)
        v = o.val
        if not h.sym:
            Wk = h.array([w for _ in range(K)])
            G = m.solve_eq(m.calc_velocity_coefs(Wk, data[1], data[3], data[0], te, g)[0], m.calculate_RHS(Wk, data[0]))
        N, ctr, cp, R, B = data[:5]

        def ind(p): return [h.sum(K, lambda q, k=k: unit(p, q)[k] * G[q]) for k in range(3)]
        h.shape('force', v.force, (K, 3))
        h.shape('pressure', v.pressure, (K,))
        for i, j in h.each(nc, ns):
            q = i * ns + j
            tot = add(w, ind(h.v3(cp, q)))
            dg = h.ite(h.or_(first(i), one), lambda: G[q], lambda: G[q] - G[q - ns])
            h.eq('force', h.v3(v.force, q), scale(rho, cross(tot, scale(dg, h.v3(B, q)))))
            ar = area(i, j)
            h.hint(q)
            h.true('no degenerate panel', h.ge(ar, h.div(1, 10 ** 14)))
            h.eq('pressure', v.pressure[q], h.div(dot(h.v3(v.force, q), h.v3(N, q)), ar))
        q = rho * n2(w) * b * c
        tot = [h.sum(K, lambda i, k=k: v.force[i, k]) for k in range(3)]
        big = {} if h.sym else {'scale': float(abs(v.force).sum() / q)}
        for k in range(3):
            h.eq('force coefficients', v.Cxyz[k], h.div(tot[k], q), **big)
        h.eq('drag coefficient', v.CD, h.div(tot[0], q), **big)
        h.eq('lift coefficient', v.CL, h.div(tot[1], q), **big)
        h.eq('aspect ratio', v.AR, h.div(2 * b, c))
        cl = h.div(2 * h.pi, 1 + h.div(2, h.div(2 * b, c) * h.num('0.8'))) * al
        h.eq('expected lift', v.CL_theoretical, cl)
        h.eq('expected drag', v.CD_theoretical, h.div(cl * cl, h.pi * h.div(2 * b, c) * h.num('0.8')))
        h.eq('pressure sum', v.Cp, h.div(h.sum(K, lambda i: v.pressure[i]), q), **({} if h.sym else {'scale': float(abs(v.pressure).sum() / q)}))
    return fn


ob('P24', 'free wing, air and orientation by default', contracts=KS, budget=60, trials=60)(wing(False))
ob('P24', 'free wing', contracts=KS, budget=60, trials=60)(wing(True))
