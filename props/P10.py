"""sails: panels in place, mirror image below the water"""
from pyvc.ob import ob
from props.spec import *
from props.P13 import Obj

G = 'pySailingVLM.yacht_geometry.sail_geometry'
Cs = 'pySailingVLM.rotations.csys_transformations'


CALLEES = [('pySailingVLM.rotations.csys_transformations:CSYS_transformations.rotate_point_with_mirror', 'heel and leeway'),
           ('pySailingVLM.solver.mesher:make_airfoil_mesh', 'airfoil mesh'),
           ('pySailingVLM.rotations.geometry_calc:rotate_points_around_arbitrary_axis', 'rotation about a line')]


class Rig:
    pass


def rig(h, tag='', csys=None):
    r = Rig()
    if csys is None:
        r.heel, r.lee = h.real('heel', lo=-60, hi=60, specials=(0.0, 30.0), wide=(-89, 89)), h.real('lee', lo=-30, hi=30, specials=(0.0, 5.0), wide=(-180, 180))
        r.csys = h.mod(Cs).CSYS_transformations(r.heel, r.lee)
        k = h.pi / 180
        r.ch, r.sh, r.cl, r.sl = h.cos(r.heel * k), h.sin(r.heel * k), h.cos(r.lee * k), h.sin(r.lee * k)
        h.assume(h.gt(r.ch, 0))  # less than 90 degrees of heel
        r.nc, r.ns = h.dim('nc', 1, 3), h.dim('ns', 1, 3)
    else:
        r.__dict__.update(csys.__dict__)
    ns = r.ns
    p, q = h.vec('p' + tag), h.vec('q' + tag)
    r.tack = h.array([p[0], 0 * p[0], h.real('tz' + tag, lo=0.02, hi=2, wide=(0.0001, 40))])
    r.head = h.array([q[0], 0 * q[0], r.tack[2] + h.real('dz' + tag, lo=0.2, hi=12, wide=(0.02, 200))])
    r.C = h.arr('C' + tag, (ns + 1,), lo=0.1, hi=3, wide=(0.001, 60))
    r.m, r.d = h.arr('m' + tag, (ns + 1,), lo=0, hi=0.3, specials=(0.0, 0.3)), h.arr('d' + tag, (ns + 1,), lo=0.02, hi=0.9, specials=(0.5, 0.9))
    return r


def upright(h, r, i, j):
    """chordwise station j on section i before any rotation"""
    return station(h, h.v3(r.tack), h.v3(r.head), r.C[i], r.m[i], r.d[i], r.nc, r.ns, i, j, lambda m, d, x: h.fn('camber', m, d, x))


def heeled(r, x):
    return rz(rx(x, r.ch, -1 * r.sh), r.cl, r.sl)


def corners(i, j):
    return [(i + 1, j), (i, j), (i, j + 1), (i + 1, j + 1)]


@ob('P10', 'panels without twist', contracts=CALLEES[:2], sizes=[{'nc': 1, 'ns': 1}, {'nc': 2, 'ns': 2}])
def plain(h):
    """panel (i,j): chordwise strip i, spanwise strip j of the sail mesh, heeled and turned by leeway; below the water the mirror images in reverse spanwise order"""
    r = rig(h)
    s = h.mod(G).SailGeometry(r.head, r.tack, r.csys, n_spanwise=r.ns, n_chordwise=r.nc, chords=r.C,
                              interpolated_camber=r.m, interpolated_distance_from_luff=r.d, name='jib')
    N, M = r.nc, r.ns
    h.shape('above', s.panels_above, (N * M, 4, 3))
    h.shape('under', s.panels_under, (N * M, 4, 3))
    h.shape('all', s.panels, (2 * N * M, 4, 3))
    h.shape('upright', s.panels_above_zero, (N * M, 4, 3))
    h.shape('upright below', s.panels_under_zero, (N * M, 4, 3))
    h.shape('trailing', s.trailing_edge_info, (N * M,))
    h.shape('leading', s.leading_edge_info, (N * M,))
    h.eq('n_chordwise', s.n_chordwise, N)
    h.eq('n_spanwise', s.n_spanwise, M)
    for i, j in h.each(N, M):
        q = i * M + j
        for k, (a, b) in enumerate(corners(i, j)):
            z = upright(h, r, b, a)
            p = heeled(r, z)
            h.eq('upright', h.v3(s.panels_above_zero, q, k), z)
            h.eq('above', h.v3(s.panels_above, q, k), p)
            h.eq('all above', h.v3(s.panels, q, k), p)
        h.eq('trailing', s.trailing_edge_info[q], h.same(i, N - 1))
        h.eq('leading', s.leading_edge_info[q], h.and_(h.same(i, 0), h.not_(h.same(i, N - 1))))
        for k, (a, b) in enumerate(corners(i, M - 1 - j)):
            z = upright(h, r, b, a)
            p = mirror(heeled(r, z))
            e = [3, 2, 1, 0][k]
            h.eq('upright below', h.v3(s.panels_under_zero, q, e), mirror(z))
            h.eq('under', h.v3(s.panels_under, q, e), p)
            h.eq('all under', h.v3(s.panels, N * M + q, e), p)


def twist_of(h, mode, tw, ns, i):
    if mode == 'real_twist':
        return tw[i]
    if mode == 'average_const':
        return h.div(h.sum(ns + 1, lambda k: tw[k]), ns + 1)
    return h.minimum(ns + 1, lambda k: tw[k])


def luff(h, r):
    return heeled(r, h.v3(r.tack)), heeled(r, h.v3(r.head))


for _mode in ('real_twist', 'average_const', 'sheeting_angle_const'):
    def twisted(h, mode=_mode):
        """each section is turned about the heeled luff by its own twist, by the average or by the smallest twist; mirror images below the water"""
        r = rig(h)
        tw = h.arr('tw', (r.ns + 1,), lo=-40, hi=40, wide=(-180, 180))
        s = h.mod(G).SailGeometry(r.head, r.tack, r.csys, n_spanwise=r.ns, n_chordwise=r.nc, chords=r.C, initial_sail_twist_deg=tw,
                                  LLT_twist=mode, interpolated_camber=r.m, interpolated_distance_from_luff=r.d, name='jib')
        N, M = r.nc, r.ns
        h.shape('above', s.panels_above, (N * M, 4, 3))
        h.shape('under', s.panels_under, (N * M, 4, 3))
        for i, j in h.each(N, M):
            q = i * M + j
            for k, (a, b) in enumerate(corners(i, j)):
                p = heeled(r, upright(h, r, b, a))
                A, B = luff(h, r)
                t = twist_of(h, mode, tw, M, b) * h.pi / 180
                h.eq('above', h.v3(s.panels_above, q, k), h.fn('rotline', p, A, B, t))
            # mirror images: P08 'mirror image of a rotation'
            for k, (a, b) in enumerate(corners(i, M - 1 - j)):
                p = heeled(r, upright(h, r, b, a))
                t = twist_of(h, mode, tw, M, b) * h.pi / 180
                h.eq('under', h.v3(s.panels_under, q, [3, 2, 1, 0][k]), h.fn('rotline', mirror(p), mirror(B), mirror(A), t))
    ob('P10', 'panels with twist, ' + _mode, contracts=CALLEES, sizes=[{'nc': 1, 'ns': 1}, {'nc': 2, 'ns': 2}])(twisted)


def part(h, t):
    k = h.dim('k' + t, 1, 4)
    return Obj(k=k, panels_above=h.arr('above' + t, (k, 4, 3)), panels_under=h.arr('under' + t, (k, 4, 3)),
               panels_above_zero=h.arr('azero' + t, (k, 4, 3)), panels_under_zero=h.arr('uzero' + t, (k, 4, 3)),
               trailing_edge_info=h.arr('te' + t, (k,), kind='b'), leading_edge_info=h.arr('le' + t, (k,), kind='b'))


@ob('P10', 'set of sails', sizes=[{'kA': 1, 'kB': 2}])
def sailset(h):
    """all panels above the water sail by sail, then all mirror images in the same order; edge marks likewise"""
    A, B = part(h, 'A'), part(h, 'B')
    for sails in ([A], [A, B]):
        s = h.mod(G).SailSet(h.lst(sails))
        K = A.k if len(sails) == 1 else A.k + B.k
        h.shape('panels', s.panels, (2 * K, 4, 3))
        h.shape('zero mesh', s.zero_mesh, (2 * K, 4, 3))
        h.shape('trailing', s.trailing_edge_info, (2 * K,))
        h.shape('leading', s.leading_edge_info, (2 * K,))
        o = 0
        for x in sails:
            for q in h.each(x.k):
                for k in range(4):
                    h.eq('above', h.v3(s.panels, o + q, k), h.v3(x.panels_above, q, k))
                    h.eq('under', h.v3(s.panels, K + o + q, k), h.v3(x.panels_under, q, k))
                    h.eq('zero above', h.v3(s.zero_mesh, o + q, k), h.v3(x.panels_above_zero, q, k))
                    h.eq('zero under', h.v3(s.zero_mesh, K + o + q, k), h.v3(x.panels_under_zero, q, k))
                for b in (0, K):
                    h.eq('trailing', s.trailing_edge_info[b + o + q], x.trailing_edge_info[q])
                    h.eq('leading', s.leading_edge_info[b + o + q], x.leading_edge_info[q])
            o = o + x.k
