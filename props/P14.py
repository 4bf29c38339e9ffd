"""interpolation along the girth"""
from pyvc.ob import ob
from props.spec import *

I = 'pySailingVLM.solver.interpolator'


def data(h, tag='', kind='spline'):
    n = h.dim('n' + tag, 4 if kind == 'spline' else 2, 7)
    X, Y = h.arr('X' + tag, (n,), lo=0, hi=1, inc='n' + tag), h.arr('Y' + tag, (n,))
    h.assume_all(n - 1, lambda i: h.lt(X[i], X[i + 1]))
    return n, X, Y


def value(h, kind, t, n, X, Y):
    f = h.interp if kind == 'linear' else h.spline
    return f(t, n, lambda i: X[i], lambda i: Y[i])


def kinds(name):
    def deco(fn):
        for k in ('linear', 'spline'):
            f = lambda h, k=k: fn(h, k)
            f.__doc__ = fn.__doc__
            ob('P14', '%s, %s' % (name, k), sizes=[{'n': 4, 'N': 2}, {'n': 4, 'na': 4, 'nb': 4, 'N': 2}])(f)
        return fn
    return deco


@kinds('sections')
def girths(h, kind):
    """value i of N is the interpolation at relative girth i/(N-1)"""
    n, X, Y = data(h, '', kind)
    N = h.dim('N', 2, 6)
    r = h.mod(I).Interpolator(kind).interpolate_girths(X, Y, N)
    h.shape('values', r, (N,))
    for i in h.each(N):
        h.eq('value', r[i], value(h, kind, h.div(i, N - 1), n, X, Y))


@kinds('mirrored sections')
def mirrored(h, kind):
    """the mirror half is the reversed above-water half"""
    n, X, Y = data(h, '', kind)
    N = h.dim('N', 2, 6)
    r = h.mod(I).Interpolator(kind).interpolate_and_mirror_girths(X, Y, N)
    h.shape('values', r, (2 * N,))
    for i in h.each(N):
        w = value(h, kind, h.div(i, N - 1), n, X, Y)
        h.eq('above', r[N + i], w)
        h.eq('below', r[N - 1 - i], w)


@kinds('data of two sails')
def two(h, kind):
    """each interpolated quantity lists the jib (mirror, above) and then the main sail (mirror, above)"""
    na, Xa, Ya = data(h, 'a', kind)
    nb, Xb, Yb = data(h, 'b', kind)
    Za, Zb = h.arr('Za', (na,)), h.arr('Zb', (nb,))
    N = h.dim('N', 2, 4)
    r = h.mod(I).Interpolator(kind).interpolate_data_for_sections(h.lst([Ya, Za]), h.lst([Yb, Zb]), Xa, Xb, N)
    h.eq('quantities', h.len(r), 2)
    for q, (A, B) in enumerate([(Ya, Yb), (Za, Zb)]):
        for i in h.each(N):
            a = value(h, kind, h.div(i, N - 1), na, Xa, A)
            b = value(h, kind, h.div(i, N - 1), nb, Xb, B)
            h.eq('jib below', r[q][N - 1 - i], b)
            h.eq('jib above', r[q][N + i], b)
            h.eq('main below', r[q][3 * N - 1 - i], a)
            h.eq('main above', r[q][3 * N + i], a)


@ob('P14', 'girth ends')
def ends(h):
    """with girths from 0 to 1 the first and last sections get the first and last given values (linear)"""
    n = h.int('n', 2, 4)
    X, Y = h.arr('X', (n,), lo=0, hi=1), h.arr('Y', (n,))
    if not h.sym:
        import numpy as np
        X = np.linspace(0, 1, n)
    h.assume(h.and_(h.same(X[0], 0), h.same(X[n - 1], 1)))
    for i in range(n - 1):
        h.assume(h.lt(X[i], X[i + 1]))
    N = h.dim('N', 2, 6)
    r = h.mod(I).Interpolator('linear').interpolate_girths(X, Y, N)
    h.eq('tack', r[0], Y[0])
    h.eq('head', r[N - 1], Y[n - 1])


@ob('P14', 'unknown interpolation')
def unknown(h):
    """any other interpolation type is an error"""
    n, X, Y = data(h)
    k = h.choice('k', ['', 'Linear', 'cubic', 'splines', None])
    out = h.outcome(lambda: h.mod(I).Interpolator(k).interpolate_girths(X, Y, 3))
    h.true('error', out.raised)
