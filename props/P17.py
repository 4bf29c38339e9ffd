"""geometry of the rig: where mast, forestay, sails and hull stand"""
from pyvc.ob import ob, contract
from props.spec import *
from props.P10 import heeled

G = 'pySailingVLM.yacht_geometry.sail_geometry'
Fa = 'pySailingVLM.yacht_geometry.sail_factory'
Hu = 'pySailingVLM.yacht_geometry.hull_geometry'
Cs = 'pySailingVLM.rotations.csys_transformations'
INIT = [(G + ':SailGeometry.__init__', 'sail geometry')]
NAMES = ('head', 'tack', 'csys', 'n_spanwise', 'n_chordwise', 'chords', 'twist', 'name', 'mode', 'camber', 'distance')


@contract('sail geometry')
def sail_geometry(F, self, head, tack, csys, n_spanwise, n_chordwise, chords, twist, name, mode, camber, distance):
    """a sail is determined by its arguments (P10); the ghost state records them"""
    self.ghost = dict(zip(NAMES, (head, tack, csys, n_spanwise, n_chordwise, chords, twist, name, mode, camber, distance)))
    self.head_mounting, self.tack_mounting, self.name, self.csys_transformations = head, tack, name, csys
    n = n_chordwise * n_spanwise
    for a in ('panels_above', 'panels_under', 'panels_above_zero', 'panels_under_zero', 'trailing_edge_info', 'leading_edge_info'):
        # numbered by the sail they belong to: only their shape and order is used by callers
        F.keep(self, a, F.build((n, 4, 3) if a.startswith('panels') else (n,), lambda *k: F.num(0)))


class Setup:
    pass


def setup(h):
    s = Setup()
    s.heel, s.lee = h.real('heel', lo=-60, hi=60, specials=(0.0, 30.0), wide=(-180, 180)), h.real('lee', lo=-30, hi=30, specials=(0.0, 5.0), wide=(-180, 180))
    s.csys = h.mod(Cs).CSYS_transformations(s.heel, s.lee)
    s.rake, s.sheer = h.real('rake', lo=60, hi=130, specials=(90.0, 92.0), wide=(10, 170)), h.real('sheer', lo=0, hi=3, specials=(0.0, 1.2), wide=(0, 30))
    r = s.rake * h.pi / 180
    s.cr, s.sr = h.cos(r), h.sin(r)
    h.assume(h.gt(s.sr, h.num('0.1')))
    s.ns, s.nc = h.dim('ns', 1, 3), h.dim('nc', 1, 3)
    n = s.ns + 1
    s.C, s.tw = h.arr('C', (n,), lo=0.1, hi=3, wide=(0.001, 60)), h.arr('tw', (n,), lo=-40, hi=40, wide=(-180, 180))
    s.m, s.d = h.arr('m', (n,), lo=0, hi=0.3), h.arr('d', (n,), lo=0.1, hi=0.9)
    s.mode = h.choice('mode', ['real_twist', 'average_const', 'sheeting_angle_const'])
    s.factory = h.mod(Fa).SailFactory(s.csys, n_spanwise=s.ns, n_chordwise=s.nc, rake_deg=s.rake, sheer_above_waterline=s.sheer)
    return s


def same(h, s, sail, head, tack, name):
    h.eq('tack', h.v3(sail.tack_mounting), tack)
    h.eq('head', h.v3(sail.head_mounting), head)
    h.eq('name', sail.name, name)
    if h.sym:
        g = sail.ghost
        h.eq('strips', g['n_chordwise'], s.nc)
        h.eq('sections', g['n_spanwise'], s.ns)
        h.eq('twist mode', g['mode'], s.mode)
        if g['csys'] is not s.csys:
            h.fail('same transformation')
        for k, a in (('chords', s.C), ('twist', s.tw), ('camber', s.m), ('distance', s.d)):
            h.eqarr(k, h.asarr(g[k]), a)
    else:
        ref = h.mod(G).SailGeometry(h.array(head), h.array(tack), s.csys, n_spanwise=s.ns, n_chordwise=s.nc, chords=s.C, initial_sail_twist_deg=s.tw,
                                    name=name, LLT_twist=s.mode, interpolated_camber=s.m, interpolated_distance_from_luff=s.d)
        h.eqarr('above', sail.panels_above, ref.panels_above)
        h.eqarr('under', sail.panels_under, ref.panels_under)
        h.eqarr('edges', sail.trailing_edge_info, ref.trailing_edge_info)


@ob('P17', 'main sail', contracts=INIT)
def main(h):
    """the tack stands on the mast (raked line through the origin) at sheer plus boom height along the mast, the head one luff length further up the mast"""
    s = setup(h)
    luff, boom = h.real('luff', lo=1, hi=20, wide=(0.1, 100)), h.real('boom', lo=0.05, hi=3, wide=(0.001, 30))
    sail = s.factory.make_main_sail(luff, boom, s.C, s.tw, s.mode, s.m, s.d)
    up = lambda t: [-1 * t * s.cr, 0 * t, t * s.sr]
    same(h, s, sail, up(s.sheer + boom + luff), up(s.sheer + boom), 'main_sail')


@ob('P17', 'jib', contracts=INIT)
def jib(h):
    """the tack stands the foretriangle base (and the length of the mast profile, measured across the raked mast) ahead of the mast at deck level,
    the head one jib luff along the line to the point of the mast at foretriangle height"""
    s = setup(h)
    luff, b, H, loa = h.real('luff', lo=1, hi=20, wide=(0.1, 100)), h.real('base', lo=0.5, hi=8, wide=(0.1, 60)), h.real('height', lo=2, hi=25, wide=(0.5, 200)), h.real('loa', lo=0, hi=0.5, wide=(0, 5))
    h.assume(h.gt(s.sheer, 0))
    fx, fz = b - H * s.cr, H * s.sr
    h.assume(h.gt(fx, h.num('0.01')))
    sail = s.factory.make_jib(luff, b, H, s.C, s.tw, loa, s.mode, s.m, s.d)
    L = h.sqrt(fx * fx + fz * fz)
    tack = [-1 * b - s.sheer * s.cr - h.div(loa, s.sr), 0 * b, s.sheer * s.sr]
    same(h, s, sail, [tack[0] + h.div(luff * fx, L), tack[1], tack[2] + h.div(luff * fz, L)], tack, 'jib')


@ob('P17', 'keel')
def keel(h):
    """the centre of lateral resistance turns rigidly with the hull (not as a mirror image)"""
    heel, lee = h.real('heel', lo=-60, hi=60, specials=(0.0, 30.0), wide=(-180, 180)), h.real('lee', lo=-30, hi=30, specials=(0.0, 5.0), wide=(-180, 180))
    csys = h.mod(Cs).CSYS_transformations(heel, lee)
    P, k = h.vec('P'), h.pi / 180
    r = Setup()
    r.ch, r.sh, r.cl, r.sl = h.cos(heel * k), h.sin(heel * k), h.cos(lee * k), h.sin(lee * k)
    hull = h.mod(Hu).HullGeometry(h.num('1.2'), h.num('3.9'), csys, P)
    h.eq('centre of lateral resistance', h.v3(hull.center_of_lateral_resistance), heeled(r, h.v3(P)))


@ob('P17', 'hull outline')
def hull(h):
    """the deck centre line is straight at sheer height over three foretriangle bases; the outlines below the water are the mirror images of those above"""
    heel, lee = h.real('heel', lo=-60, hi=60, specials=(0.0, 30.0), wide=(-180, 180)), h.real('lee', lo=-30, hi=30, specials=(0.0, 5.0), wide=(-180, 180))
    csys = h.mod(Cs).CSYS_transformations(heel, lee)
    b, sheer, k = h.real('base', lo=0.5, hi=8, wide=(0.1, 60)), h.real('sheer', lo=0.1, hi=3, wide=(0.001, 30)), h.pi / 180
    r = Setup()
    r.ch, r.sh, r.cl, r.sl = h.cos(heel * k), h.sin(heel * k), h.cos(lee * k), h.sin(lee * k)
    o = h.mod(Hu).HullGeometry(sheer, b, csys, h.vec('P'))
    for nm, x in (('centre line', o.deck_centerline), ('port', o.deck_port_line), ('starboard', o.deck_starboard_line),
                  ('port below', o.deck_port_line_underwater), ('starboard below', o.deck_starboard_line_underwater)):
        h.shape(nm, x, (51, 3))
    for i in (0, 1, 17, 49, 50):
        h.eq('centre line', h.v3(o.deck_centerline, i), heeled(r, [h.num('-1.1') * b + 3 * b * i / 50, 0 * b, sheer]))
        h.eq('port', h.v3(o.deck_port_line_underwater, i), mirror(h.v3(o.deck_port_line, i)))
        h.eq('starboard', h.v3(o.deck_starboard_line_underwater, i), mirror(h.v3(o.deck_starboard_line, i)))
        h.eq('deck height', o.deck_port_line[i, 2] * r.ch + (r.cl * o.deck_port_line[i, 1] - r.sl * o.deck_port_line[i, 0]) * r.sh, sheer)
