"""the runner: wind profile and sail set selected by the input, incomplete input rejected"""
from pyvc.ob import ob
from props.spec import *
from props.P11 import base, vec
from props.P13 import Obj
from props.P14 import value
from props.P17 import INIT, same, Setup

R = 'pySailingVLM.runner.sail'
It = 'pySailingVLM.solver.interpolator'
Fa = 'pySailingVLM.yacht_geometry.sail_factory'
Cs = 'pySailingVLM.rotations.csys_transformations'


def conditions(h, profile):
    a, t, s = base(h)
    return Obj(alpha_true_wind_deg=a, tws_ref=t, SOG_yacht=s, reference_water_level_for_wind_profile=h.real('lev', lo=-2, hi=0.9, wide=(-50, 0.9)),
               wind_exp_coeff=h.real('e', lo=0.01, hi=0.5, wide=(0.0001, 3)), wind_reference_measurment_height=h.real('H', lo=2, hi=40, wide=(1.01, 2000)), rho=h.real('rho', lo=0.1, hi=2, wide=(0.001, 2000)),
               wind_profile=profile, roughness=h.real('rough', lo=0.0001, hi=1, wide=(0.000000001, 1)), leeway_deg=h.real('lee', lo=-5, hi=5, wide=(-180, 180)), heel_deg=h.real('heel', lo=-5, hi=5, wide=(-89, 89)))


@ob('P22', 'selected wind profile')
def profile(h):
    """the wind follows the selected law with the settings of the conditions"""
    kind = h.choice('kind', ['exponential', 'flat', 'logarithmic'])
    c = conditions(h, kind)
    w = h.mod(R).Wind(c).profile
    z = h.real('z', lo=1, hi=60, wide=(0.91, 5000))
    a, t = c.alpha_true_wind_deg, c.tws_ref
    H = c.wind_reference_measurment_height
    if kind == 'flat':
        sp = t
    elif kind == 'logarithmic':
        sp = h.div(t * h.log(h.div(z, c.roughness)), h.log(h.div(H, c.roughness)))
    else:
        sp = t * h.rpow(h.div(z - c.reference_water_level_for_wind_profile, H), c.wind_exp_coeff)
    v = w.get_true_wind_speed_at_h(z)
    h.eq('true wind', h.v3(v), vec(h, sp, a))
    h.eq('apparent wind', h.v3(w.get_app_infs_at_h(v)), add(vec(h, sp, a), [c.SOG_yacht, 0, 0]))


def stops(h, nm, fn):
    o = h.outcome(fn)
    h.true(nm, o.raised and isinstance(o.val, SystemExit))


@ob('P22', 'incomplete wind settings')
def missing(h):
    """a missing setting of the selected profile ends the run, a missing setting of another profile does not"""
    kind = h.choice('kind', ['exponential', 'logarithmic'])
    needs = {'exponential': ['wind_exp_coeff', 'wind_reference_measurment_height'], 'logarithmic': ['roughness', 'wind_reference_measurment_height']}[kind]
    for x in needs:
        c = conditions(h, kind)
        setattr(c, x, None)
        stops(h, 'missing ' + x, lambda: h.mod(R).Wind(c))
    c = conditions(h, kind)
    setattr(c, 'roughness' if kind == 'exponential' else 'wind_exp_coeff', None)
    h.true('not needed', h.outcome(lambda: h.mod(R).Wind(c)).ok)


SAILS = {'jib': ['jib'], 'main': ['main_sail'], 'jib_and_main': ['jib', 'main_sail']}
DATA = ('chords', 'centerline_twist_deg', 'camber', 'camber_distance_from_luff')


def sheet(h, t, n, smooth=False, dim=True):
    """smooth: data that a spline does not often carry out of the permitted ranges"""
    cl, ch, ml, mh, dl, dh = (1.5, 2.5, 0.12, 0.18, 0.4, 0.6) if smooth else (0.1, 3, 0, 0.3, 0.1, 0.9)
    o = Obj(girths=h.arr('girths' + t, (n,), lo=0, hi=1, inc=dim), chords=h.arr('chords' + t, (n,), lo=cl, hi=ch, wide=(0.001, 60)), centerline_twist_deg=h.arr('twist' + t, (n,), lo=-40, hi=40, wide=(-180, 180)),
            camber=h.arr('camber' + t, (n,), lo=ml, hi=mh, wide=(0, 0.3)), camber_distance_from_luff=h.arr('dist' + t, (n,), lo=dl, hi=dh, wide=(0.1, 0.9)))
    h.assume_all(n - 1, lambda i: h.lt(o.girths[i], o.girths[i + 1]))
    return o


def rigging(h, sails):
    r = Obj(main_sail_luff=h.real('luffm', lo=1, hi=20, wide=(0.1, 100)), jib_luff=h.real('luffj', lo=1, hi=20, wide=(0.1, 100)), foretriangle_height=h.real('fh', lo=2, hi=25, wide=(0.5, 200)),
            foretriangle_base=h.real('fb', lo=0.5, hi=8, wide=(0.1, 60)), sheer_above_waterline=h.real('sheer', lo=0.1, hi=3, wide=(0.001, 30)), boom_above_sheer=h.real('boom', lo=0.05, hi=3, wide=(0.001, 30)),
            rake_deg=h.real('rake', lo=60, hi=130, specials=(90.0, 92.0), wide=(10, 170)), mast_LOA=h.real('loa', lo=0, hi=0.5, wide=(0, 5)), sails_def=sails)
    k = r.rake_deg * h.pi / 180
    r.cr, r.sr = h.cos(k), h.sin(k)
    h.assume(h.gt(r.sr, h.num('0.1')))
    h.assume(h.gt(r.foretriangle_base - r.foretriangle_height * r.cr, h.num('0.01')))
    return r


def whole(name, kind):
    def fn(h):
        """one sail per entry of the definition, jib first, made from its own measurements: position from the rig, sections interpolated at equal relative girths"""
        s = Setup()
        s.csys = h.mod(Cs).CSYS_transformations(h.real('heel', lo=-20, hi=20, wide=(-89, 89)), h.real('lee', lo=-5, hi=5, wide=(-180, 180)))
        rig = rigging(h, name)
        s.ns, s.nc, s.mode = h.dim('ns', 1, 3), h.dim('nc', 1, 3), h.choice('mode', ['real_twist', 'average_const', 'sheeting_angle_const'])
        solver = Obj(n_spanwise=s.ns, n_chordwise=s.nc, interpolation_type=kind, LLT_twist=s.mode)
        d = {}
        for x in SAILS[name]:
            n = h.dim('n' + x, 4 if kind == 'spline' else 2, 6)
            d[x] = sheet(h, x, n, kind == 'spline', 'n' + x)
            d[x].n = n
        vals = {}
        for x in SAILS[name]:
            o = d[x]
            f = lambda y, o=o: h.grid((s.ns + 1,), lambda i: value(h, kind, h.div(i, s.ns), o.n, o.girths, y))
            vals[x] = [f(getattr(o, y)) for y in DATA]
            C, tw, m, dd = vals[x]
            h.assume_all(s.ns + 1, lambda i: h.and_(h.lt(0, C[i]), h.le(0, m[i]), h.le(m[i], h.num('0.3')), h.lt(h.num('0.01'), dd[i]), h.le(dd[i], h.num('0.9'))))
        r = h.mod(R).Sail(solver, rig, d.get('main_sail'), d.get('jib'), s.csys).sail_set
        h.eq('sails', h.len(r.sails), len(SAILS[name]))
        for i, x in enumerate(SAILS[name]):
            s.C, s.tw, s.m, s.d = vals[x]
            sh = rig.sheer_above_waterline
            if x == 'main_sail':
                up = lambda t: [-1 * t * rig.cr, 0 * t, t * rig.sr]
                tack, head = up(sh + rig.boom_above_sheer), up(sh + rig.boom_above_sheer + rig.main_sail_luff)
            else:
                fx, fz = rig.foretriangle_base - rig.foretriangle_height * rig.cr, rig.foretriangle_height * rig.sr
                L = h.sqrt(fx * fx + fz * fz)
                tack = [-1 * rig.foretriangle_base - sh * rig.cr - h.div(rig.mast_LOA, rig.sr), 0 * sh, sh * rig.sr]
                head = [tack[0] + h.div(rig.jib_luff * fx, L), tack[1], tack[2] + h.div(rig.jib_luff * fz, L)]
            same(h, s, r.sails[i], head, tack, x)
        h.shape('panels', r.panels, (2 * len(SAILS[name]) * s.ns * s.nc, 4, 3))
    return fn


for _n in SAILS:
    for _k in ('linear', 'spline'):
        ob('P22', 'sail set %s, %s' % (_n, _k), contracts=INIT, budget=40, trials=60)(whole(_n, _k))


@ob('P22', 'incomplete sail data')
def nodata(h):
    """a missing measurement of a sail of the set, or data of different length, ends the run; data of sails that are not set are not looked at"""
    name = h.choice('sails', list(SAILS))
    S = h.mod(R).Sail
    t = h.mod(Cs).CSYS_transformations(h.num(0), h.num(0))
    n = h.int('n', 4, 5)
    solver = Obj(n_spanwise=2, n_chordwise=1, interpolation_type='linear', LLT_twist='real_twist')

    def make(drop=None, cut=None):
        rig = rigging(h, name)
        d = {x: sheet(h, x, n) for x in ('jib', 'main_sail')}
        if drop:
            o, a = drop
            setattr(d.get(o, rig), a, None)
        if cut:
            o, a = cut
            setattr(d[o], a, h.arr('short', (n - 1,), lo=0.1, hi=0.3))
        return lambda: S(solver, rig, d['main_sail'], d['jib'], t)
    h.true('complete', h.outcome(make()).ok)
    for x in ('jib', 'main_sail'):
        used = x in SAILS[name]
        rigs = ['foretriangle_base', 'foretriangle_height', 'jib_luff'] if x == 'jib' else ['main_sail_luff']
        for o, a in [(x, y) for y in ('girths', 'centerline_twist_deg', 'camber', 'camber_distance_from_luff')] + [('rig', y) for y in rigs]:
            if used:
                stops(h, 'missing %s of %s' % (a, o), make(drop=(o, a)))
            else:
                h.true('%s of %s not needed' % (a, o), h.outcome(make(drop=(o, a))).ok)
        for a in ('girths', 'centerline_twist_deg', 'camber', 'camber_distance_from_luff'):
            if used:
                stops(h, 'short %s of %s' % (a, x), make(cut=(x, a)))
