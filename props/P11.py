"""wind profiles"""
from pyvc.ob import ob
from props.spec import *

W = 'pySailingVLM.inlet.winds'


def base(h):
    return h.real('alpha', lo=-180, hi=180, specials=(0.0, 90.0), wide=(-720, 720)), h.real('tws', lo=0.5, hi=30, wide=(0.001, 300)), h.real('sog', lo=0, hi=12, wide=(0, 200))


def vec(h, w, alpha):
    a = alpha * h.pi / 180
    return [w * h.cos(a), w * h.sin(a), 0]


@ob('P11', 'flat profile')
def flat(h):
    """same wind at every height"""
    m = h.mod(W)
    a, t, s = base(h)
    z = h.real('z', lo=0, hi=60, wide=(-1000, 5000))
    h.eq('tws', m.FlatWindProfile(a, t, s).get_true_wind_speed_at_h(z), vec(h, t, a))


@ob('P11', 'logarithmic profile')
def log(h):
    """speed(z) = reference speed * ln(z/roughness) / ln(reference height/roughness)"""
    m = h.mod(W)
    a, t, s = base(h)
    z, r, H = h.real('z', lo=0.01, hi=60, wide=(0.000001, 5000)), h.real('rough', lo=0.0001, hi=1, wide=(0.000000001, 1)), h.real('H', lo=2, hi=40, wide=(1.01, 2000))
    w = m.LogWindProfile(a, t, s, r, H)
    sp = h.div(t * h.log(h.div(z, r)), h.log(h.div(H, r)))
    h.eq('tws', w.get_true_wind_speed_at_h(z), vec(h, sp, a))
    h.eq('roughness', w.roughness, r)
    h.eq('reference height', w.reference_measurment_height, H)


@ob('P11', 'logarithmic profile at the reference height')
def logref(h):
    """the reference speed is found at the reference height"""
    m = h.mod(W)
    a, t, s = base(h)
    r, H = h.real('rough', lo=0.0001, hi=1, wide=(0.000000001, 1)), h.real('H', lo=2, hi=40, wide=(1.01, 2000))
    h.eq('tws', m.LogWindProfile(a, t, s, roughness=r, reference_measurment_height=H).get_true_wind_speed_at_h(H), vec(h, t, a))


@ob('P11', 'exponential profile')
def exp(h):
    """speed(z) = reference speed * ((z - water level)/reference height)^exponent"""
    m = h.mod(W)
    a, t, s = base(h)
    z, e, H, l = h.real('z', lo=1, hi=60, wide=(0.91, 5000)), h.real('e', lo=0.01, hi=0.5, wide=(0.0001, 3)), h.real('H', lo=2, hi=40, wide=(1.01, 2000)), h.real('lev', lo=-2, hi=0.9, wide=(-50, 0.9))
    w = m.ExpWindProfile(a, t, s, e, H, l)
    sp = t * h.rpow(h.div(z - l, H), e)
    h.eq('tws', w.get_true_wind_speed_at_h(z), vec(h, sp, a))
    h.eq('exponent', w.exp_coeff, e)
    h.eq('reference height', w.reference_measurment_height, H)
    h.eq('water level', w.reference_water_level_for_wind_profile, l)


@ob('P11', 'exponential profile at the reference height')
def expref(h):
    m = h.mod(W)
    a, t, s = base(h)
    e, H = h.real('e', lo=0.01, hi=0.5, wide=(0.0001, 3)), h.real('H', lo=2, hi=40, wide=(1.01, 2000))
    h.eq('tws', m.ExpWindProfile(a, t, s, exp_coeff=e, reference_measurment_height=H).get_true_wind_speed_at_h(H), vec(h, t, a))


@ob('P11', 'documented default parameters')
def defaults(h):
    """logarithmic: roughness 0.05, 10 m; exponential: 0.1428, 10 m, water level 0"""
    m = h.mod(W)
    a, t, s = base(h)
    z = h.real('z', lo=0.1, hi=60, wide=(0.0001, 5000))
    h.eq('log', m.LogWindProfile(a, t, s).get_true_wind_speed_at_h(z),
         vec(h, h.div(t * h.log(h.div(z, h.num('0.05'))), h.log(h.div(10, h.num('0.05')))), a))
    h.eq('exp', m.ExpWindProfile(a, t, s).get_true_wind_speed_at_h(z), vec(h, t * h.rpow(h.div(z, 10), h.num('0.1428')), a))


@ob('P11', 'apparent wind')
def app(h):
    """true wind plus boat speed along x, for every profile"""
    m = h.mod(W)
    a, t, s = base(h)
    v = h.vec('v')
    k = h.choice('profile', ['FlatWindProfile', 'LogWindProfile', 'ExpWindProfile'])
    w = getattr(m, k)(a, t, s)
    x = h.v3(v)
    h.eq('apparent', w.get_app_infs_at_h(v), [x[0] + s, x[1], x[2]])


@ob('P11', 'apparent wind angle')
def angle(h):
    """the angle helper returns true angle minus the angle between apparent and true wind"""
    m = h.mod(W)
    a, t, s = base(h)
    v = h.vec('v')
    k = h.choice('profile', ['FlatWindProfile', 'LogWindProfile', 'ExpWindProfile'])
    w = getattr(m, k)(a, t, s)
    x = h.v3(v)
    l, al = norm(h, x), a * h.pi / 180
    d = s * s + 2 * s * l * h.cos(al) + l * l
    h.assume(h.gt(d, h.num('0.01')))
    h.assume(h.lt(h.fabs(s * h.cos(al) + l), h.num('0.99999') * h.sqrt(d)))
    h.eq('angle', w.get_app_alfa_infs_at_h(v), al - h.acos(h.div(s * h.cos(al) + l, h.sqrt(d))))
