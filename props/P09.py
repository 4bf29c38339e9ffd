"""heel and leeway transformation"""
from pyvc.ob import ob
from props.spec import *

Cs = 'pySailingVLM.rotations.csys_transformations'


def make(h):
    m = h.mod(Cs)
    heel, lee = h.real('heel', lo=-60, hi=60, specials=(0.0, 30.0), wide=(-180, 180)), h.real('lee', lo=-30, hi=30, specials=(0.0, 5.0), wide=(-180, 180))
    t = m.CSYS_transformations(heel, lee)
    r = h.pi / 180
    return t, heel, lee, h.cos(heel * r), h.sin(heel * r), h.cos(lee * r), h.sin(lee * r)


@ob('P09', 'heel then leeway')
def forward(h):
    """above water: turned by -heel about x then by leeway about z; below water: by +heel then leeway (mirror)"""
    t, heel, lee, ch, sh, cl, sl = make(h)
    p = h.vec('p', specials=(0.0,))
    x = h.v3(p)
    above = h.gt(x[2], 0)
    up, dn = rz(rx(x, ch, -1 * sh), cl, sl), rz(rx(x, ch, sh), cl, sl)
    h.eq('mirrored transform', t.rotate_point_with_mirror(p), ites(h, above, up, dn))
    h.eq('plain transform', t.rotate_point_without_mirror(p), up)


@ob('P09', 'reverse')
def back(h):
    """undoes the leeway, then the heel according to the side of the water the point is on"""
    t, heel, lee, ch, sh, cl, sl = make(h)
    p = h.vec('p')
    x = rz(h.v3(p), cl, -1 * sl)
    h.eq('reverse', t.reverse_rotations_with_mirror(p), ites(h, h.gt(x[2], 0), rx(x, ch, sh), rx(x, ch, -1 * sh)))


@ob('P09', 'round trip')
def trip(h):
    """reverse of the transform is the identity as long as the point stays on its side of the water"""
    t, heel, lee, ch, sh, cl, sl = make(h)
    p = h.vec('p')
    x = h.v3(p)
    q = t.rotate_point_with_mirror(p)
    h.assume(h.same(h.gt(x[2], 0), h.gt(h.v3(q)[2], 0)))
    h.eq('identity', t.reverse_rotations_with_mirror(q), x)


@ob('P09', 'rigid motion')
def rigid(h):
    """distances from the origin are kept and a point strictly above water and its mirror image are sent to mirror images"""
    t, heel, lee, ch, sh, cl, sl = make(h)
    p = h.vec('p')
    x = h.v3(p)
    q = h.v3(t.rotate_point_with_mirror(p))
    h.eq('length', n2(q), n2(x))
    h.assume(h.gt(x[2], 0))
    r = h.v3(t.rotate_point_with_mirror(h.array([p[0], p[1], -1 * p[2]])))
    h.eq('mirror image', r, mirror(q))


@ob('P09', 'centre-line components', sizes=[{'half': 1}, {'half': 2}])
def centre(h):
    """each vector is turned by the leeway angle about z; totals are over the above-water half"""
    t, heel, lee, ch, sh, cl, sl = make(h)
    H = h.dim('half', 1, 3)
    K = 2 * H
    M = h.arr('M', (K, 3))
    r = t.from_xyz_to_centerline_csys(M)
    mm, tot = t.calc_centerline_moments(M)
    h.shape('r', r, (K, 3))
    h.shape('m', mm, (K, 3))
    for i in h.each(K):
        w = rz(h.v3(M, i), cl, sl)
        h.eq('vector', h.v3(r, i), w)
        h.eq('moment', h.v3(mm, i), w)
    for k in range(3):
        h.eq('total[%d]' % k, tot[k], h.sum(H, lambda i: rz(h.v3(M, i), cl, sl)[k]))


@ob('P09', 'angles and reference point')
def attrs(h):
    m = h.mod(Cs)
    heel, lee, v = h.real('heel', lo=-60, hi=60, wide=(-180, 180)), h.real('lee', lo=-30, hi=30, wide=(-180, 180)), h.vec('v')
    t = m.CSYS_transformations(heel, lee, v)
    h.eq('heel', t.heel_deg, heel)
    h.eq('leeway', t.leeway_deg, lee)
    h.eq('reference', h.v3(t.v_from_original_xyz_2_reference_csys_xyz), h.v3(v))
    z = m.CSYS_transformations()
    h.eq('upright', z.heel_deg, 0)
    h.eq('no leeway', z.leeway_deg, 0)
    h.eq('no reference', h.v3(z.v_from_original_xyz_2_reference_csys_xyz), [0, 0, 0])
    p = h.vec('p')
    for f in (z.rotate_point_with_mirror, z.rotate_point_without_mirror, z.reverse_rotations_with_mirror):
        h.eq('identity', h.v3(f(p)), h.v3(p))
    s = m.CSYS_transformations(heel)
    h.eq('heel only', s.heel_deg, heel)
    h.eq('heel only', s.leeway_deg, 0)
