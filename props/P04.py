"""Kutta-Joukowski panel forces"""
from pyvc.ob import ob
from props.spec import *

V = 'pySailingVLM.solver.velocity'
C = 'pySailingVLM.solver.coefs'
Fo = 'pySailingVLM.solver.forces'
KS = [(V + ':vortex_ring', 'ring'), (V + ':vortex_horseshoe_v2', 'shoe')]


def inputs(h):
    ns = h.dim('ns', 1, 3)
    nc = h.dim('nc', 1, 3)
    K = ns * nc
    Vw, P, N, B = h.arr('Vw', (K, 3)), h.arr('P', (K, 3)), h.arr('N', (K, 3)), h.arr('B', (K, 3))
    R = h.arr('R', (K, 4, 3))
    te = h.arr('te', (K,), kind='b')
    le = h.arr('le', (K,), kind='b')
    G = h.arr('G', (K,))
    return K, ns, Vw, P, N, B, R, te, le, G, h.real('g'), h.real('rho', lo=0.1, wide=(0.001, 2000))


def edges(h, le, ns):
    """samples: satisfy the precondition on leading edges"""
    if not h.sym:
        if le[0]:
            le[:ns] = True
        else:
            le[:] = False
        h.made(le)


def unit(h, P, R, Vw, te, g, i, j):
    p = h.v3(P, i)
    q = [h.v3(R, j, k) for k in range(4)]
    return h.ite(te[j], lambda: h.fn('shoe', p, q[0], q[1], q[2], q[3], h.v3(Vw, j), g),
                 lambda: h.fn('ring', p, q[0], q[1], q[2], q[3], g))


def force(name):
    def f(h):
        m = h.mod(Fo)
        K, ns, Vw, P, N, B, R, te, le, G, g, rho = inputs(h)
        edges(h, le, ns)
        # the first chordwise row is a leading edge, unless there are no leading edges at all
        h.assume(h.or_(h.all(ns, lambda i: le[i]), h.all(K, lambda i: h.not_(le[i]))))
        fo, vcp, vind = m.calc_force_wrapper(Vw, G, rho, P, R, ns, N, B, te, le, name, g)
        h.shape('force', fo, (K, 3))
        none = h.all(K, lambda i: h.not_(le[i]))
        for i in h.each(K):
            ind = [h.sum(K, lambda j, k=k: unit(h, P, R, Vw, te, g, i, j)[k] * G[j]) for k in range(3)]
            inf = h.v3(Vw, i)
            tot = [inf[k] + ind[k] for k in range(3)]
            h.eq('induced velocity', h.v3(vind, i), ind)
            h.eq('velocity at cp', h.v3(vcp, i), tot)
            vel = {'force_xyz': tot, 'lift': inf, 'drag': ind}[name]
            dg = h.ite(h.or_(le[i], none), lambda: G[i], lambda: G[i] - G[i - ns])
            b = h.v3(B, i)
            h.eq('force', h.v3(fo, i), scale(rho, cross(vel, scale(dg, b))))
        if name == 'force_xyz':
            d = m.calc_force_wrapper(Vw, G, rho, P, R, ns, N, B, te, le)
            e = m.calc_force_wrapper(Vw, G, rho, P, R, ns, N, B, te, le, name, h.num(1))
            for i in h.each(K):
                for x, y in zip(d, e):
                    h.eq('default orientation', h.v3(x, i), h.v3(y, i))
    f.__doc__ = {'force_xyz': 'panel force = rho * total velocity x bound vortex; net circulation is the difference to the upstream panel except at a leading edge',
                 'lift': 'lift part: the same with the onset velocity only', 'drag': 'induced drag part: the same with the induced velocity only'}[name]
    return f


for _n in ('force_xyz', 'lift', 'drag'):
    ob('P04', 'force: ' + _n, contracts=KS, sizes=[{'ns': 2, 'nc': 2}])(force(_n))


@ob('P04', 'unknown force name')
def badname(h):
    """any other force name ends the run"""
    m = h.mod(Fo)
    K, ns, Vw, P, N, B, R, te, le, G, g, rho = inputs(h)
    nm = h.choice('nm', ['', 'Lift', 'side', 'force', 'force_xyz ', 'liftdrag'])
    out = h.outcome(lambda: m.calc_force_wrapper(Vw, G, rho, P, R, ns, N, B, te, le, nm, g))
    h.true('ends', out.raised and isinstance(out.val, SystemExit))
