"""finite and semi-infinite vortex lines, rings and horseshoes"""
from pyvc.ob import ob
from props.spec import *

V = 'pySailingVLM.solver.velocity'
NEAR = (0.0, 1.0, 1e-5, 1e-9)


def pts(h, *names):
    return [h.vec(n, specials=(0.0, 1.0, 0.5)) for n in names]


def off_wake(h, p, a, u):
    """the wake has a direction and the point is not on it"""
    w, d = sub(h.v3(p), h.v3(a)), h.v3(u)
    h.assume(h.gt(n2(d), 0))
    h.assume(h.gt(n2(w), 0))
    h.assume(h.gt(norm(h, w) * norm(h, d) - dot(w, d), 0))


@ob('P01', 'vortex_line')
def line(h):
    """vortex_line: Biot-Savart value of a straight finite segment; exactly zero inside the core"""
    m = h.mod(V)
    p, a, b = pts(h, 'p', 'a', 'b')
    g = h.real('g')
    r = m.vortex_line(p, a, b, g)
    h.eq('v', r, seg(h, h.v3(p), h.v3(a), h.v3(b), g))


@ob('P01', 'vortex_infinite_line')
def inf(h):
    m = h.mod(V)
    p, a, u = pts(h, 'p', 'a', 'u')
    g = h.real('g')
    off_wake(h, p, a, u)
    r = m.vortex_infinite_line(p, a, u, g)
    h.eq('v', r, semi(h, h.v3(p), h.v3(a), h.v3(u), g))


LS = [(V + ':vortex_line', 'seg'), (V + ':vortex_infinite_line', 'semi')]


@ob('P01', 'vortex_ring', contracts=LS)
def rng(h):
    m = h.mod(V)
    p, A, B, C, D = pts(h, 'p', 'A', 'B', 'C', 'D')
    g = h.real('g')
    r = m.vortex_ring(p, A, B, C, D, g)
    h.eq('v', r, ring_(h, h.fn, h.v3(p), h.v3(A), h.v3(B), h.v3(C), h.v3(D), g))


@ob('P01', 'vortex_horseshoe_v2', contracts=LS)
def hs2(h):
    m = h.mod(V)
    p, A, B, C, D, u = pts(h, 'p', 'A', 'B', 'C', 'D', 'u')
    g = h.real('g')
    r = m.vortex_horseshoe_v2(p, A, B, C, D, u, g)
    h.eq('v', r, shoe_(h, h.fn, h.v3(p), h.v3(A), h.v3(B), h.v3(C), h.v3(D), h.v3(u), g))


@ob('P01', 'vortex_horseshoe', contracts=LS)
def hs(h):
    m = h.mod(V)
    p, B, C, u = pts(h, 'p', 'B', 'C', 'u')
    g = h.real('g')
    r = m.vortex_horseshoe(p, B, C, u, g)
    P, b, c, U = h.v3(p), h.v3(B), h.v3(C), h.v3(u)
    h.eq('v', r, add(h.fn('semi', P, c, U, g), h.fn('seg', P, b, c, g), h.fn('semi', P, b, U, -1 * g)))


@ob('P01', 'unit strength', contracts=LS)
def unit_strength(h):
    """without a circulation every filament, ring and horseshoe has strength one"""
    m = h.mod(V)
    p, A, B, C, D, u = pts(h, 'p', 'A', 'B', 'C', 'D', 'u')
    for x in (A, B, C, D):
        off_wake(h, p, x, u)
    h.eq('segment', m.vortex_line(p, A, B), m.vortex_line(p, A, B, h.num(1)))
    h.eq('semi-infinite', m.vortex_infinite_line(p, A, u), m.vortex_infinite_line(p, A, u, h.num(1)))
    h.eq('ring', m.vortex_ring(p, A, B, C, D), m.vortex_ring(p, A, B, C, D, h.num(1)))
    h.eq('horseshoe', m.vortex_horseshoe(p, B, C, u), m.vortex_horseshoe(p, B, C, u, h.num(1)))
    h.eq('horseshoe of a panel', m.vortex_horseshoe_v2(p, A, B, C, D, u), m.vortex_horseshoe_v2(p, A, B, C, D, u, h.num(1)))


@ob('P01', 'vortex_line near its ends', contracts=())
def near(h):
    """evaluation points on or very close to the segment: the induced velocity is cut off to zero inside the core and finite outside"""
    m = h.mod(V)
    a, b, d = pts(h, 'a', 'b', 'd')
    g = h.real('g')
    s = h.choice('s', [0, 10 ** -10, 10 ** -7, 10 ** -5, 10 ** -4])
    t = h.choice('t', [0, 1, 0.5, 2])
    p = h.array([a[k] + t * (b[k] - a[k]) + s * d[k] for k in range(3)])
    r = m.vortex_line(p, a, b, g)
    h.eq('v', r, seg(h, h.v3(p), h.v3(a), h.v3(b), g))
