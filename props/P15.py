"""thin airfoil sections"""
from pyvc.ob import ob
from props.spec import *

A = 'pySailingVLM.thin_airfoil.vlm_airfoil'


def params(h):
    m, p, t = h.real('m', lo=0, hi=0.3, specials=(0.0, 0.3)), h.real('p', lo=0, hi=0.9, specials=(0.9, 0.5, 0.25)), h.real('t', lo=0, hi=0.4, specials=(0.0, 0.4))
    return m, p, t, h.dim('n', 2, 6)


def slope(h, m, p, x):
    return h.ite(h.lt(x, p), lambda: h.div(2 * m * (p - x), p * p), lambda: h.div(2 * m * (p - x), (1 - p) * (1 - p)))


def thick(h, t, x):
    d = h.num
    a4 = h.ite(h.lt(1 - x, d('0.0001')), d('-0.1036'), d('-0.1015'))
    return 5 * t * (d('0.2969') * h.sqrt(x) + d('-0.126') * x + d('-0.3516') * x * x + d('0.2843') * x * x * x + a4 * x * x * x * x)


@ob('P15', 'camber line', big=250, sizes=[{'n': 2}, {'n': 5}])
def line(h):
    """n equally spaced stations from 0 to 1 with the four-digit camber: parabola up to the position of maximum camber, another one aft of it"""
    m, p, t, n = params(h)
    f = h.mod(A).VlmAirfoil(m, p, t, n)
    h.shape('x', f.xc, (n,))
    h.shape('y', f.yc, (n,))
    for i in h.each(n):
        x = h.div(i, n - 1)
        h.eq('x', f.xc[i], x)
        h.eq('y', f.yc[i], camber(h, m, p, x))


@ob('P15', 'default number of stations')
def default(h):
    """one hundred stations unless told otherwise"""
    f = h.mod(A).VlmAirfoil(h.num('0.1'), h.num('0.5'), h.num('0.2'))
    h.shape('x', f.xc, (100,))


@ob('P15', 'thickness and surfaces', big=250, sizes=[{'n': 2}, {'n': 5}])
def surf(h):
    """thickness is laid off perpendicular to the camber line on both sides"""
    m, p, t, n = params(h)
    f = h.mod(A).VlmAirfoil(m, p, t, n)
    for nm in ('yt', 'xu', 'xl', 'yu', 'yl'):
        h.shape(nm, getattr(f, nm), (n,))
    for i in h.each(n):
        x = h.div(i, n - 1)
        y, T, th = camber(h, m, p, x), thick(h, t, x), h.atan(slope(h, m, p, x))
        h.eq('thickness', f.yt[i], T)
        h.eq('upper', [f.xu[i], f.yu[i]], [x - T * h.sin(th), y + T * h.cos(th)])
        h.eq('lower', [f.xl[i], f.yl[i]], [x + T * h.sin(th), y - T * h.cos(th)])


@ob('P15', 'ends and crest of the camber line', big=250)
def ends(h):
    """zero camber at both ends; a section with a station at the crest has the maximum camber there"""
    m, p, t, n = params(h)
    h.assume(h.gt(p, h.num('0.001')))
    f = h.mod(A).VlmAirfoil(m, p, t, n)
    h.eq('leading edge', f.yc[0], 0)
    h.eq('trailing edge', f.yc[n - 1], 0, **({} if h.sym else {'scale': 1.0}))
    for i in h.each(n):
        x = h.div(i, n - 1)
        q = h.ite(h.lt(x, p), lambda: h.div(p - x, p), lambda: h.div(p - x, 1 - p))
        h.eq('below the maximum camber by a square', f.yc[i], m - m * q * q)


@ob('P15', 'crest', sizes=[{'n': 3, 'k': 1}])
def crest(h):
    m, t, n = h.real('m', lo=0, hi=0.3), h.num('0.0'), h.dim('n', 3, 6)
    k = h.dim('k', 1, 4)
    h.assume(h.le(10 * k, 9 * (n - 1)))
    f = h.mod(A).VlmAirfoil(m, h.div(k, n - 1), t, n)
    h.eq('maximum camber', f.yc[k], m)


@ob('P15', 'rejected parameters')
def reject(h):
    """camber outside 0..0.3, its position outside 0..0.9 or thickness outside 0..0.4 ends the run; anything else is accepted"""
    m, p, t = h.real('m', lo=-1, hi=1, specials=(0.0, 0.3, 0.1), wide=(None, None)), h.real('p', lo=-1, hi=2, specials=(0.0, 0.9, 0.5), wide=(None, None)), h.real('t', lo=-1, hi=1, specials=(0.0, 0.4, 0.1), wide=(None, None))
    out = h.outcome(lambda: h.mod(A).VlmAirfoil(m, p, t, 3))
    d = h.num
    good = h.and_(h.le(0, m), h.le(m, d('0.3')), h.le(0, p), h.le(p, d('0.9')), h.le(0, t), h.le(t, d('0.4')))
    if out.ok:
        h.true('accepted only if valid', good)
    else:
        h.true('rejected only if invalid', h.not_(good))
        h.true('ends the run', isinstance(out.val, SystemExit))
        h.eq('status', out.val.code, 1)
