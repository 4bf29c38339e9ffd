"""numpy as seen by the verified code: exact-real contracts of the numpy functions in use.

Every function here is a *trusted contract* on numpy (listed in the evidence): elementwise functions,
reductions, products, shape manipulation with view semantics.  numpy.linalg.solve is axiomatised by its
defining equation only.  Anything not listed raises Unsupported (the obligation is then not proved).
"""
import itertools
import warnings
from builtins import all as ball, any as bany, abs as babs, max as bmax, min as bmin, sum as bsum
from fractions import Fraction
from . import terms as tm
from .terms import T
from .core import CTX, S, Unsupported, lift, num, wrap, tob, sdiv, spow, defined
from . import arr as A
from .arr import Arr, Buf, dim, it, dadd, dsub, dmul, deq, build, generic, gterm, bshape, bread, binop, unop, out0, conv, cells
from .lists import SList, Seg, SIter, tolist, as_iter, Poison

USED = set()


class DType:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __call__(self, x=0):
        if isinstance(x, (Arr, SList, list, tuple)):
            return array(x, dtype=self)
        t = lift(x)
        if t is None:
            raise Unsupported('dtype conversion')
        if self.kind == 'i' and t.sort == 'R':
            y = A.real_to_int(t)
            return wrap(y if y is not None else tm.app('@trunc', (t,), 'I'))
        return wrap(conv(t, self.kind))

    def __eq__(self, o):
        try:
            return self.kind == kind_of(o)
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __getitem__(self, k):
        return self

    def __repr__(self):
        return self.name


float64 = DType('f', 'float64')
int64 = DType('i', 'int64')
bool_ = DType('b', 'bool')
float32 = DType('f', 'float64')
double = float64
int32 = int64
intp = int64
DT = {'f': float64, 'i': int64, 'b': bool_}
pi = S(tm.PI)
newaxis = None
ndarray = Arr


def kind_of(dt):
    if isinstance(dt, DType):
        return dt.kind
    if dt is float or dt in ('float64', 'float', 'f8', 'd'):
        return 'f'
    if dt is int or dt in ('int64', 'int', 'int32'):
        return 'i'
    if dt is bool or dt == 'bool':
        return 'b'
    n = getattr(dt, '__name__', '')
    if n == 'float_':
        return 'f'
    if n == 'int_':
        return 'i'
    raise Unsupported('dtype %r' % (dt,))


# ---------------------------------------------------------------- conversion
def scalar(t, kind=None):
    if kind is None:
        kind = {'R': 'f', 'I': 'i', 'B': 'b'}[t.sort]
    return Arr(Buf((), kind, ('lam', (), {(): t})))


CODES = {}


def strcode(s):
    """elements of string arrays are represented by distinct numbers"""
    return tm.const(10 ** 15 + CODES.setdefault(s, len(CODES)), 'I')


def asarr(x, dtype=None):
    if isinstance(x, Arr):
        r = x
    elif x is None:
        raise TypeError('None is not an array')
    elif isinstance(x, str):
        r = scalar(strcode(x))
    elif isinstance(x, Poison):
        x._no()
    elif lift(x) is not None:
        r = scalar(lift(x))
    elif isinstance(x, (SList, list, tuple, SIter, range)):
        r = _stack(tolist(x))
    else:
        raise TypeError('cannot convert %r to an array' % (x,))
    if dtype is not None:
        k = kind_of(dtype)
        if r.kind != k:
            r = r.astype(dtype)
    return r


def _stack(l):
    n = l.length()
    if isinstance(n, int):
        items = [asarr(l.item(i)) for i in range(n)]
        if not items:
            return Arr(Buf((0,), 'f', ('const', tm.R0)))
        sh = items[0]._shape
        for x in items[1:]:
            if len(x._shape) != len(sh) or not ball(deq(a, b) for a, b in zip(sh, x._shape)):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        kind = 'f' if bany(x.kind == 'f' for x in items) else 'i' if bany(x.kind == 'i' for x in items) else 'b'

        def f(idx):
            k = idx[0]
            if isinstance(k, int):
                return conv(items[k].read(idx[1:]), kind)
            raise Unsupported('symbolic index into a stacked list')
        return build((n,) + sh, kind, f)
    # symbolic length: probe the element shape
    t = tm.fresh('p', 'I')
    shp = generic([(t, n)], lambda: _shape_of(l.item(t)))
    if shp is None:
        raise Unsupported('array of an empty symbolic list')
    sh, kind = tuple(shp[:-1]), shp[-1]
    sh = tuple(dim(d) for d in sh)
    for d in sh:
        if not isinstance(d, int) and t in d.fv:
            raise Unsupported('ragged symbolic list')
    return build((n,) + sh, kind, lambda idx: asarr(l.item(idx[0])).read(idx[1:]))


def _shape_of(v):
    a = asarr(v)
    return tuple(a.shape) + (a.kind,)


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    a = asarr(x, dtype)
    if isinstance(x, Arr) and a is x and copy:
        a = a.copy()
    while ndmin > a.ndim:
        a = a.view((None,))
    return a


def asarray(x, dtype=None, order=None):
    return asarr(x, dtype)


ascontiguousarray = asarray
asfarray = asarray


def asanyarray(x, dtype=None):
    return asarr(x, dtype)


def copy(x, order=None):
    return asarr(x).copy()


def shp(s):
    if isinstance(s, (int, S)):
        return (dim(s),)
    return tuple(dim(d) for d in (s if isinstance(s, tuple) else tolist(s)))


def zeros(shape, dtype=None, order=None):
    k = 'f' if dtype is None else kind_of(dtype)
    return Arr(Buf(shp(shape), k, ('const', conv(tm.I0, k))))


def ones(shape, dtype=None, order=None):
    k = 'f' if dtype is None else kind_of(dtype)
    return Arr(Buf(shp(shape), k, ('const', conv(tm.I1, k))))


def full(shape, fill_value, dtype=None):
    s = shp(shape)
    a = asarr(fill_value)
    k = a.kind if dtype is None else kind_of(dtype)
    if a.ndim == 0:
        return Arr(Buf(s, k, ('const', conv(a.read(()), k))))
    rd = bread(a, s)
    return build(s, k, lambda i: conv(rd(i), k))


def empty(shape, dtype=None, order=None):
    k = 'f' if dtype is None else kind_of(dtype)
    return Arr(Buf(shp(shape), k, ('app', '@uninit%d' % next(_n), {'f': 'R', 'i': 'I', 'b': 'B'}[k])))


_n = itertools.count()


def zeros_like(a, dtype=None):
    a = asarr(a)
    return zeros(a.shape, a.dtype if dtype is None else dtype)


def ones_like(a, dtype=None):
    a = asarr(a)
    return ones(a.shape, a.dtype if dtype is None else dtype)


def empty_like(a, dtype=None):
    a = asarr(a)
    return empty(a.shape, a.dtype if dtype is None else dtype)


def full_like(a, v, dtype=None):
    a = asarr(a)
    return full(a.shape, v, a.dtype if dtype is None else dtype)


def eye(n, m=None, dtype=None):
    n = dim(n)
    m = n if m is None else dim(m)
    return build((n, m), 'f', lambda i: tm.ite(tm.eq(it(i[0]), it(i[1])), tm.R1, tm.R0))


identity = eye


# ---------------------------------------------------------------- elementwise
def _u(f, kind='f'):
    def g(x, out=None, where=None):
        if out is not None or where is not None:
            x = asarr(x)
            return _into(out, where, x._shape, kind or x.kind, [x], lambda t: f(num(t)))
        if isinstance(x, S) or lift(x) is not None:
            return wrap(conv(f(num(lift(x))), kind or {'R': 'f', 'I': 'i', 'B': 'b'}[lift(x).sort]))
        x = asarr(x)
        return out0(unop(x, lambda t: f(num(t)), kind or x.kind))
    return g


def _into(out, where, shape, kind, args, f):
    """ufunc with out= / where=: f is evaluated only where the condition holds"""
    if isinstance(out, tuple):
        out, = out
    w = None if where is None or where is True else asarr(where)
    if w is not None:
        shape = bshape(shape, w._shape)
    if out is None:
        out = empty(shape, {'f': float64, 'i': int64, 'b': bool_}[kind])
    elif len(out._shape) != len(shape):
        raise Unsupported('ufunc out of a different shape')
    else:
        kind = out.kind
    rds = [bread(a, shape) for a in args]
    old = out.snap()
    rw = None if w is None else bread(w, shape)

    def el(idx):
        if rw is not None and not CTX.decide(tob(rw(idx))):
            return conv(old.read(idx), kind)
        return conv(f(*[r(idx) for r in rds]), kind)
    out._assign(build(shape, kind, el))
    return out0(out)


def _dsqrt(t):
    t = tm.toreal(t)
    if not tm.nonneg(t):
        defined(tm.le(tm.R0, t), 'square root')
    return tm.sqrt(t)


def _dom1(op):
    def f(t):
        t = tm.toreal(t)
        defined(tm.and_(tm.le(tm.const(-1), t), tm.le(t, tm.R1)), op)
        return tm.fn(op, t)
    return f


def _dlog(t):
    t = tm.toreal(t)
    defined(tm.lt(tm.R0, t), 'log')
    return tm.fn('log', t)


sqrt = _u(_dsqrt)
sin = _u(lambda t: tm.sin(tm.toreal(t)))
cos = _u(lambda t: tm.cos(tm.toreal(t)))
tan = _u(lambda t: tm.fn('tan', t))
arctan = atan = _u(lambda t: tm.fn('atan', t))
arcsin = asin = _u(_dom1('asin'))
arccos = acos = _u(_dom1('acos'))
exp = _u(lambda t: tm.fn('exp', t))
log = _u(_dlog)
log10 = _u(lambda t: tm.div(_dlog(t), tm.fn('log', tm.const(10))))
deg2rad = radians = _u(lambda t: tm.mul(tm.toreal(t), tm.PI, tm.const(Fraction(1, 180))))
rad2deg = degrees = _u(lambda t: tm.mul(tm.toreal(t), tm.const(180), tm.inv(tm.PI)))
abs = absolute = fabs = _u(tm.absval, None)
square = _u(lambda t: tm.power(t, 2), None)
negative = _u(tm.neg, None)
positive = _u(lambda t: t, None)
reciprocal = _u(lambda t: sdiv(tm.R1, tm.toreal(t)))
sign = _u(lambda t: tm.ite(tm.lt(tm.const(0, t.sort), t), tm.const(1, t.sort),
                           tm.ite(tm.lt(t, tm.const(0, t.sort)), tm.const(-1, t.sort), tm.const(0, t.sort))), None)
NANABLE = set()


def _isnan(t):
    if t.op == 'app' and t.args[0] in NANABLE:
        return tm.app('@isnan_' + t.args[0], t.args[1:], 'B')
    for x in tm.atoms_of(t, lambda y: y.op == 'app' and y.args[0] in NANABLE):
        raise Unsupported('isnan of an expression')
    return tm.FALSE


isnan = _u(_isnan, 'b')
isfinite = _u(lambda t: tm.not_(_isnan(t)), 'b')
isinf = _u(lambda t: tm.FALSE, 'b')


def logical_not(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, S):
        return wrap(tm.not_(tob(x.t)))
    return out0(unop(asarr(x), lambda t: tm.not_(tob(t)), 'b'))


def invert(x):
    return logical_not(x)


def _b(f, kind=None):
    def g(a, b, out=None, where=None):
        if out is not None or where is not None:
            a, b = asarr(a), asarr(b)
            return _into(out, where, bshape(a._shape, b._shape), kind or A.rkind(a.kind, b.kind), [a, b], f)
        return out0(binop(asarr(a), asarr(b), f, kind))
    return g


add = _b(A._add)
subtract = _b(A._sub)
multiply = _b(A._mul)
divide = true_divide = _b(A._div, 'f')
power = float_power = _b(A._pow)
maximum = fmax = _b(lambda a, b: _mx(num(a), num(b)))
minimum = fmin = _b(lambda a, b: tm.neg(_mx(tm.neg(num(a)), tm.neg(num(b)))))
hypot = _b(lambda a, b: tm.sqrt(tm.add(tm.power(tm.toreal(num(a)), 2), tm.power(tm.toreal(num(b)), 2))), 'f')
arctan2 = atan2 = _b(lambda a, b: tm.fn('atan2', num(a), num(b)), 'f')
logical_and = bitwise_and = _b(lambda a, b: tm.and_(tob(a), tob(b)), 'b')
logical_or = bitwise_or = _b(lambda a, b: tm.or_(tob(a), tob(b)), 'b')
logical_xor = _b(lambda a, b: tm.not_(tm.eq(tob(a), tob(b))), 'b')
less = _b(lambda a, b: tm.lt(num(a), num(b)), 'b')
less_equal = _b(lambda a, b: tm.le(num(a), num(b)), 'b')
greater = _b(lambda a, b: tm.lt(num(b), num(a)), 'b')
greater_equal = _b(lambda a, b: tm.le(num(b), num(a)), 'b')
equal = _b(lambda a, b: tm.eq(num(a), num(b)), 'b')
not_equal = _b(lambda a, b: tm.not_(tm.eq(num(a), num(b))), 'b')
floor_divide = _b(lambda a, b: A.sfloordiv(num(a), num(b)))
mod = remainder = _b(lambda a, b: A.smod(num(a), num(b)))


def _mx(a, b):
    if a.sort != b.sort:
        a, b = tm.toreal(a), tm.toreal(b)
    return CTX.simp(tm.ite(tm.le(b, a), a, b))


def clip(x, lo, hi):
    return minimum(maximum(x, lo), hi)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    c, a, b = asarr(c), asarr(a), asarr(b)
    sh = bshape(c._shape, a._shape, b._shape)
    k = A.rkind(a.kind, b.kind)
    rc, ra, rb = bread(c, sh), bread(a, sh), bread(b, sh)
    return out0(build(sh, k, lambda i: tm.ite(tob(rc(i)), conv(ra(i), k), conv(rb(i), k))))


def nonzero(a):
    from . import select
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('nonzero of a multi-dimensional array')
    return (select.positions(select.bool_of(a)),)


def flatnonzero(a):
    return nonzero(asarr(a).ravel())[0]


def compress(c, a, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return a.view((slice(None),) * axis + (asarr(c),))


def extract(c, a):
    return asarr(a).ravel()[asarr(c).ravel()]


def putmask(a, mask, values):
    mask = asarr(mask)
    old = a.snap()
    v = bread(asarr(values), a._shape)
    m = bread(mask, a._shape)
    a._assign(build(a._shape, a.kind, lambda i: tm.ite(tob(m(i)), A.conv(v(i), a.kind), old.read(i))))


def copyto(dst, src, where=True):
    if where is True:
        dst._assign(src)
    else:
        putmask(dst, where, src)


def isclose(a, b, rtol=None, atol=None):
    rt = Fraction(1, 100000) if rtol is None else lift(rtol)
    at = Fraction(1, 10 ** 8) if atol is None else lift(atol)
    rt = rt if isinstance(rt, T) else tm.const(rt)
    at = at if isinstance(at, T) else tm.const(at)

    def f(x, y):
        x, y = tm.toreal(num(x)), tm.toreal(num(y))
        return tm.le(tm.absval(tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.absval(y))))
    return out0(binop(asarr(a), asarr(b), f, 'b'))


def allclose(a, b, rtol=None, atol=None, equal_nan=False):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or not _alld([deq(p, q) for p, q in zip(a._shape, b._shape)]):
        return False
    return all(equal(a, b))


def _alld(l):
    for x in l:
        if not x:
            return False
    return True


# ---------------------------------------------------------------- reductions
def axes_of(axis, n):
    if axis is None:
        return tuple(range(n))
    if isinstance(axis, (tuple, list, SList)):
        ax = tuple(int(a) for a in axis)
    else:
        ax = (int(axis),)
    for a in ax:
        if a >= n or a < -n:
            raise ValueError('axis %d is out of bounds for array of dimension %d' % (a, n))
    return tuple(a % n for a in ax)


def _reduce(x, axis, keepdims, kind, fin):
    """fin(dims, reader) combines over the reduced dims; dims: list of sizes, reader(idx of reduced)"""
    x = asarr(x)
    ax = axes_of(axis, x.ndim)
    rest = [i for i in range(x.ndim) if i not in ax]
    rsh = tuple(x._shape[i] for i in rest)

    def f(idx):
        def rd(ridx):
            full = [None] * x.ndim
            for j, i in enumerate(rest):
                full[i] = idx[j]
            for j, i in enumerate(ax):
                full[i] = ridx[j]
            return x.read(tuple(full))
        return fin([x._shape[i] for i in ax], rd)
    r = build(rsh, kind or x.kind, f)
    if keepdims:
        k = []
        for i in range(x.ndim):
            k.append(None if i in ax else slice(None))
        r = r.view(tuple(k))
        return r
    return out0(r)


def sum_over(dims, rd):
    """term: sum of rd(idx) for idx in the box dims"""
    if not dims:
        return num(rd(()))
    d = dims[0]
    if isinstance(d, int):
        out = [sum_over(dims[1:], lambda r, i=i: rd((i,) + r)) for i in range(d)]
        return tm.add(*out) if out else tm.R0
    t = tm.fresh('s', 'I')
    from . import select
    u = select.of_length(d)
    if u is not None:
        # over the selected elements: over all, the others contribute nothing
        def pick():
            if not CTX.decide(u.mask(t)):
                return tm.R0
            u.inside(t)
            return tm.toreal(sum_over(dims[1:], lambda r: rd((u.rank(t),) + r)))
        return tm.mksum(t, u.n, gterm([(t, u.n)], pick))
    v = gterm([(t, d)], lambda: sum_over(dims[1:], lambda r: rd((t,) + r)))
    if v.sort == 'I':
        if t not in v.fv:
            return tm.mul(it(d), v)
        raise Unsupported('integer sum over a symbolic range')
    return tm.mksum(t, it(d), v)


def quant_over(q, dims, rd):
    if not dims:
        return tob(rd(()))
    d = dims[0]
    if isinstance(d, int):
        out = [quant_over(q, dims[1:], lambda r, i=i: rd((i,) + r)) for i in range(d)]
        return (tm.and_ if q == 'all' else tm.or_)(*out)
    t = tm.fresh('s', 'I')
    from . import select
    u = select.of_length(d)
    if u is not None:
        def pick():
            if not CTX.decide(u.mask(t)):
                return tm.boolc(q == 'all')
            u.inside(t)
            return quant_over(q, dims[1:], lambda r: rd((u.rank(t),) + r))
        return (tm.forall if q == 'all' else tm.exists)(t, u.n, tob(gterm([(t, u.n)], pick)))
    v = gterm([(t, d)], lambda: quant_over(q, dims[1:], lambda r: rd((t,) + r)))
    v = tob(v) if v.sort != 'B' else v
    return (tm.forall if q == 'all' else tm.exists)(t, it(d), v)


def max_over(dims, rd, sgn=1):
    if not dims:
        t = num(rd(()))
        return t if sgn > 0 else tm.neg(t)
    d = dims[0]
    if isinstance(d, int):
        if d == 0:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = None
        for i in range(d):
            v = max_over(dims[1:], lambda r, i=i: rd((i,) + r), sgn)
            r = v if r is None else CTX.simp(tm.ite(tm.le(v, r), r, v))
        return r
    t = tm.fresh('s', 'I')
    v = gterm([(t, d)], lambda: max_over(dims[1:], lambda r: rd((t,) + r), sgn))
    if v.sort == 'I':
        raise Unsupported('integer max over a symbolic range')
    return tm.mkmax(t, it(d), v)


def sum(x, axis=None, dtype=None, keepdims=False):
    x = asarr(x)
    return _reduce(x, axis, keepdims, 'i' if x.kind == 'b' else None, sum_over)


def _count(dims):
    n = 1
    for d in dims:
        n = dmul(n, d)
    return it(n)


def mean(x, axis=None, dtype=None, keepdims=False):
    x = asarr(x)
    return _reduce(x, axis, keepdims, 'f', lambda d, rd: tm.mul(tm.toreal(sum_over(d, rd)), tm.inv(tm.toreal(_count(d)))))


def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    w = asarr(weights)
    x = asarr(x)
    if w.ndim != x.ndim:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        ax = axes_of(axis, x.ndim)[0]
        k = [None] * x.ndim
        k[ax] = slice(None)
        w = w.view(tuple(k))
    w2 = binop(w, zeros(x.shape), lambda a, b: tm.toreal(num(a)), 'f')
    return divide(sum(multiply(x, w2), axis), sum(w2, axis))


def max(x, axis=None, keepdims=False):
    return _reduce(x, axis, keepdims, None, max_over)


def min(x, axis=None, keepdims=False):
    return _reduce(x, axis, keepdims, None, lambda d, rd: tm.neg(max_over(d, rd, -1)))


amax, amin, nanmax, nanmin, nansum = max, min, max, min, sum


def ptp(x, axis=None):
    return subtract(max(x, axis), min(x, axis))


def all(x, axis=None, keepdims=False):
    return _reduce(x, axis, keepdims, 'b', lambda d, rd: quant_over('all', d, rd))


def any(x, axis=None, keepdims=False):
    return _reduce(x, axis, keepdims, 'b', lambda d, rd: quant_over('any', d, rd))


def prod(x, axis=None, keepdims=False):
    def f(dims, rd):
        r = tm.R1
        for d in dims:
            if not isinstance(d, int):
                raise Unsupported('product over a symbolic range')
        for i in itertools.product(*[range(d) for d in dims]):
            r = tm.mul(r, tm.toreal(num(rd(i))))
        return r
    return _reduce(x, axis, keepdims, 'f', f)


def count_nonzero(x):
    return sum(asarr(x).astype(bool_).astype(int64))


def cumsum(x, axis=None):
    x = asarr(x)
    if axis is None:
        x = x.ravel()
        axis = 0
    ax = axes_of(axis, x.ndim)[0]

    def f(idx):
        k = idx[ax]
        if isinstance(k, int):
            return tm.add(*[num(x.read(idx[:ax] + (j,) + idx[ax + 1:])) for j in range(k + 1)])
        return sum_over([dadd(k, 1)], lambda r: x.read(idx[:ax] + r + idx[ax + 1:]))
    return build(x._shape, x.kind, f)


def diff(x, n=1, axis=-1):
    x = asarr(x)
    ax = axes_of(axis, x.ndim)[0]
    for _ in range(n):
        k = [slice(None)] * x.ndim
        a, b = list(k), list(k)
        a[ax] = slice(1, None)
        b[ax] = slice(None, -1)
        x = subtract(x[tuple(a)], x[tuple(b)])
    return x


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if x is None or y.ndim != 1:
        raise Unsupported('trapz')
    x = asarr(x)
    return sum((x[1:] - x[:-1]) * (y[1:] + y[:-1])) * S(tm.const(Fraction(1, 2)))


trapz = trapezoid


# ---------------------------------------------------------------- products
def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if getattr(a, 'inv_of', None) is not None and b.ndim == 1:
        return linalg.solve(a.inv_of, b)
    if a.ndim == 0 or b.ndim == 0:
        return multiply(a, b)
    la = a._shape[-1]
    lb = b._shape[-2] if b.ndim > 1 else b._shape[0]
    if not deq(la, lb):
        raise ValueError('shapes not aligned')
    na = a.ndim - 1
    sh = a._shape[:-1] + (b._shape[:-2] + b._shape[-1:] if b.ndim > 1 else ())

    def f(idx):
        ia, ib = idx[:na], idx[na:]

        def rd(r):
            y = b.read(ib[:-1] + r + ib[-1:]) if b.ndim > 1 else b.read(r)
            return tm.mul(num(a.read(ia + r)), num(y))
        return sum_over([la], rd)
    return out0(build(sh, A.rkind(a.kind, b.kind), f))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    a1 = a.view((None, slice(None))) if a.ndim == 1 else a
    b1 = b.view((slice(None), None)) if b.ndim == 1 else b
    if not deq(a1._shape[-1], b1._shape[-2]):
        raise ValueError('matmul: shapes not aligned')
    bs = bshape(a1._shape[:-2], b1._shape[:-2])
    sa = bread(a1, bs + a1._shape[-2:])
    sb = bread(b1, bs + b1._shape[-2:])
    r = build(bs + (a1._shape[-2], b1._shape[-1]), A.rkind(a.kind, b.kind),
              lambda i: sum_over([a1._shape[-1]], lambda k: tm.mul(num(sa(i[:-1] + k)), num(sb(i[:-2] + k + i[-1:])))))
    if a.ndim == 1:
        r = r.view((Ellipsis, 0, slice(None)))
    if b.ndim == 1:
        r = r.view((Ellipsis, 0))
    return r


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if b.ndim < 2:
        return dot(a, b)
    return dot(a, b.transpose())


def vdot(a, b):
    return dot(asarr(a).ravel(), asarr(b).ravel())


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return build((a._shape[0], b._shape[0]), A.rkind(a.kind, b.kind), lambda i: tm.mul(num(a.read(i[:1])), num(b.read(i[1:]))))


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    if axisa not in (-1, a.ndim - 1):
        a = moveaxis(a, axisa, -1)
    if axisb not in (-1, b.ndim - 1):
        b = moveaxis(b, axisb, -1)
    for x in (a, b):
        if not deq(x._shape[-1], 3):
            raise Unsupported('cross product of 2-vectors')
    sh = bshape(a._shape[:-1], b._shape[:-1])
    ra, rb = bread(a, sh + (3,)), bread(b, sh + (3,))

    def f(idx):
        k = idx[-1]
        if not isinstance(k, int):
            raise Unsupported('cross')
        p, q = (k + 1) % 3, (k + 2) % 3
        h = idx[:-1]
        return tm.sub(tm.mul(num(ra(h + (p,))), num(rb(h + (q,)))), tm.mul(num(ra(h + (q,))), num(rb(h + (p,)))))
    r = build(sh + (3,), A.rkind(a.kind, b.kind), f)
    if axisc not in (-1, r.ndim - 1):
        r = moveaxis(r, -1, axisc)
    return r


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    if '...' in spec:
        ops = [asarr(o) for o in ops]
        ins = spec.split('->')[0].split(',')
        n = 0
        for s, o in zip(ins, ops):
            if '...' in s:
                n = o.ndim - (len(s) - 3) if o.ndim - (len(s) - 3) > n else n
        for s, o in zip(ins, ops):
            if '...' in s and o.ndim - (len(s) - 3) != n:
                raise Unsupported('einsum broadcasting')
        spec = spec.replace('...', 'ZYXWV'[:n])
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        al = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    ins = ins.split(',')
    ops = [asarr(o) for o in ops]
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: wrong number of subscripts')
        for c, d in zip(s, o._shape):
            if c in size:
                if not deq(size[c], d):
                    raise ValueError('einsum: dimension mismatch')
            else:
                size[c] = d
    con = [c for c in size if c not in out]
    kind = 'b'
    for o in ops:
        kind = A.rkind(kind, o.kind)

    def f(idx):
        m = dict(zip(out, idx))

        def rd(r):
            mm = dict(m)
            mm.update(zip(con, r))
            return tm.mul(*[num(o.read(tuple(mm[c] for c in s))) for s, o in zip(ins, ops)])
        return sum_over([size[c] for c in con], rd)
    return out0(build(tuple(size[c] for c in out), kind, f))


def tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        k = axes
        la = 'abcdef'[:a.ndim]
        lb = la[a.ndim - k:] + 'uvwxyz'[:b.ndim - k]
        return einsum('%s,%s->%s' % (la, lb, la[:a.ndim - k] + lb[k:]), a, b)
    xa, xb = [[x] if isinstance(x, int) else [y for y in x] for x in axes]
    xa, xb = [x % a.ndim for x in xa], [x % b.ndim for x in xb]
    if len(xa) != len(xb):
        raise ValueError('shape-mismatch for sum')
    la = 'abcdef'[:a.ndim]
    lb = ['uvwxyz'[j] for j in range(b.ndim)]
    for p, q in zip(xa, xb):
        lb[q] = la[p]
    out = [la[j] for j in range(a.ndim) if j not in xa] + [lb[j] for j in range(b.ndim) if j not in xb]
    return einsum('%s,%s->%s' % (la, ''.join(lb), ''.join(out)), a, b)


def trace(a):
    return sum(asarr(a).diagonal())


def diag(a):
    a = asarr(a)
    if a.ndim == 2:
        return a.diagonal()
    return build((a._shape[0],) * 2, a.kind, lambda i: tm.ite(tm.eq(it(i[0]), it(i[1])), num(a.read(i[:1])), tm.const(0, 'R' if a.kind == 'f' else 'I')))


def diagonal(a, *k):
    return asarr(a).diagonal(*k)


# ---------------------------------------------------------------- shape
def reshape(a, *shape, **kw):
    return asarr(a).reshape(*shape)


def ravel(a, *k):
    return asarr(a).ravel()


def transpose(a, axes=None):
    return asarr(a).transpose(axes) if axes is not None else asarr(a).transpose()


def swapaxes(a, i, j):
    return asarr(a).swapaxes(i, j)


def moveaxis(a, src, dst):
    a = asarr(a)
    src, dst = axes_of(src, a.ndim), axes_of(dst, a.ndim)
    order = [i for i in range(a.ndim) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(*order)


def rollaxis(a, axis, start=0):
    a = asarr(a)
    return moveaxis(a, axis, start if start <= axis else start - 1)


def squeeze(a, axis=None):
    a = asarr(a)
    if axis is not None:
        ax = axes_of(axis, a.ndim)
        for i in ax:
            if not deq(a._shape[i], 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    else:
        ax = [i for i, d in enumerate(a._shape) if deq(d, 1)]
    return a.view(tuple(0 if i in ax else slice(None) for i in range(a.ndim)))


def expand_dims(a, axis):
    a = asarr(a)
    ax = axes_of(axis, a.ndim + (len(axis) if isinstance(axis, (tuple, list)) else 1))
    return a.view(tuple(None if i in ax else slice(None) for i in range(a.ndim + len(ax))))


def atleast_1d(a):
    a = asarr(a)
    return a.view((None,)) if a.ndim == 0 else a


def atleast_2d(a):
    a = asarr(a)
    if a.ndim == 0:
        return a.view((None, None))
    return a.view((None,)) if a.ndim == 1 else a


def flip(a, axis=None):
    a = asarr(a)
    ax = axes_of(axis, a.ndim)
    return a.view(tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim)))


def flipud(a): return flip(a, 0)
def fliplr(a): return flip(a, 1)


def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            return reshape(roll(a.ravel(), shift), a.shape)
        axis = 0
    ax = axes_of(axis, a.ndim)[0]
    n = a._shape[ax]
    s = dim(shift)

    def f(idx):
        k = dsub(idx[ax], s)
        if isinstance(k, int) and isinstance(n, int):
            k %= n
        else:
            k = dim(CTX.simp(tm.mod(it(k), it(n))))
        return a.read(idx[:ax] + (k,) + idx[ax + 1:])
    return build(a._shape, a.kind, f)


def tile(a, reps):
    a = asarr(a)
    r = shp(reps)
    while len(r) < a.ndim:
        r = (1,) + r
    while a.ndim < len(r):
        a = a.view((None,))
    sh = tuple(dmul(d, k) for d, k in zip(a._shape, r))

    def f(idx):
        o = []
        for x, d in zip(idx, a._shape):
            o.append(x % d if isinstance(x, int) and isinstance(d, int) else dim(CTX.simp(tm.mod(it(x), it(d)))))
        return a.read(tuple(o))
    return build(sh, a.kind, f)


def repeat(a, k, axis=None):
    a = asarr(a)
    k = dim(k)
    if axis is None:
        a = a.ravel()
        axis = 0
    ax = axes_of(axis, a.ndim)[0]
    sh = a._shape[:ax] + (dmul(a._shape[ax], k),) + a._shape[ax + 1:]

    def f(idx):
        x = idx[ax]
        x = x // k if isinstance(x, int) and isinstance(k, int) else dim(CTX.simp(tm.idiv(it(x), it(k))))
        return a.read(idx[:ax] + (x,) + idx[ax + 1:])
    return build(sh, a.kind, f)


def broadcast_to(a, shape):
    a = asarr(a)
    sh = shp(shape)
    rd = bread(a, sh)
    return build(sh, a.kind, rd)


def meshgrid(x, y, indexing='xy'):
    x, y = asarr(x), asarr(y)
    n, m = x._shape[0], y._shape[0]
    if indexing == 'ij':
        return SList([build((n, m), x.kind, lambda i: x.read(i[:1])), build((n, m), y.kind, lambda i: y.read(i[1:]))])
    return SList([build((m, n), x.kind, lambda i: x.read(i[1:])), build((m, n), y.kind, lambda i: y.read(i[:1]))])


def concatenate(arrs, axis=0):
    n, g = as_iter(arrs)
    if not isinstance(n, int):
        # concatenating a symbolic number of equally shaped blocks
        l = _stack(tolist(arrs))
        if axis is None:
            return l.ravel()
        if l.ndim < 2:
            raise ValueError('zero-dimensional arrays cannot be concatenated')
        ax = axes_of(axis, l.ndim - 1)[0]
        l = moveaxis(l, 0, ax)
        sh = l._shape
        return A.reshape(l, sh[:ax] + (dmul(sh[ax], sh[ax + 1]),) + sh[ax + 2:])
    xs = [asarr(g(i)) for i in range(n)]
    if not xs:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        xs = [x.ravel() for x in xs]
        axis = 0
    if xs[0].ndim == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    ax = axes_of(axis, xs[0].ndim)[0]
    for x in xs[1:]:
        if x.ndim != xs[0].ndim:
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        for i in range(x.ndim):
            if i != ax and not deq(x._shape[i], xs[0]._shape[i]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    kind = 'b'
    tot = 0
    offs = []
    for x in xs:
        kind = A.rkind(kind, x.kind)
        offs.append(tot)
        tot = dadd(tot, x._shape[ax])
    sh = xs[0]._shape[:ax] + (tot,) + xs[0]._shape[ax + 1:]

    def f(idx):
        k = idx[ax]
        for x, o in zip(xs[:-1], offs):
            end = dadd(o, x._shape[ax])
            if (k < end) if isinstance(k, int) and isinstance(end, int) else CTX.decide(tm.lt(it(k), it(end))):
                return conv(x.read(idx[:ax] + (dsub(k, o),) + idx[ax + 1:]), kind)
        return conv(xs[-1].read(idx[:ax] + (dsub(k, offs[-1]),) + idx[ax + 1:]), kind)
    if kind == 'b' and not _alld([x.kind == 'b' for x in xs]):
        kind = 'i'
    return build(sh, kind, f)


def stack(arrs, axis=0):
    n, g = as_iter(arrs)
    if not isinstance(n, int):
        r = _stack(tolist(arrs))
    else:
        xs = [asarr(g(i)) for i in range(n)]
        for x in xs[1:]:
            if x.ndim != xs[0].ndim or not _alld([deq(a, b) for a, b in zip(x._shape, xs[0]._shape)]):
                raise ValueError('all input arrays must have the same shape')
        r = _stack(SList(xs))
    return moveaxis(r, 0, axis) if axis else r


def vstack(arrs):
    xs = tolist(arrs)
    if xs.symbolic():
        l = _stack(xs)
        return l if l.ndim == 2 else l.view((slice(None), None)) if l.ndim == 1 else concatenate(xs, 0)
    return concatenate(SList([atleast_2d(a) for a in xs]), 0)


def hstack(arrs):
    xs = tolist(arrs)
    if xs.symbolic():
        l = _stack(xs)
        return l if l.ndim == 1 else concatenate(xs, 0 if l.ndim == 2 else 1)
    xs = [atleast_1d(a) for a in xs]
    return concatenate(SList(xs), 0 if xs[0].ndim == 1 else 1)


def column_stack(arrs):
    xs = [asarr(a) for a in tolist(arrs)]
    return concatenate(SList([x.view((slice(None), None)) if x.ndim == 1 else x for x in xs]), 1)


class _Grid:
    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        xs = []
        for k in key if isinstance(key, tuple) else (key,):
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    k = linspace(k.start, k.stop, int(k.step.imag))
                else:
                    k = arange(0 if k.start is None else k.start, k.stop, 1 if k.step is None else k.step)
            elif isinstance(k, str):
                raise Unsupported('np.r_ with directives')
            xs.append(atleast_1d(k))
        return column_stack(SList(xs)) if self.cols else concatenate(SList(xs), 0)


r_, c_ = _Grid(False), _Grid(True)


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        return concatenate(SList([a.ravel(), v.ravel()]), 0)
    return concatenate(SList([a, v]), axis)


def insert(a, k, v, axis=None):
    a = asarr(a)
    k = dim(k)
    if a.ndim != 1 or not isinstance(k, int):
        raise Unsupported('np.insert')
    return concatenate(SList([a[:k], atleast_1d(v), a[k:]]), 0)


def delete(a, k, axis=None):
    a = asarr(a)
    k = dim(k)
    if not isinstance(k, int) or axis is None and a.ndim != 1:
        raise Unsupported('np.delete')
    ax = 0 if axis is None else axes_of(axis, a.ndim)[0]
    n = a._shape[ax]
    if isinstance(n, int) and k < 0:
        k += n
    pre = [slice(None)] * ax
    return concatenate(SList([a[tuple(pre + [slice(None, k)])], a[tuple(pre + [slice(k + 1, None)])]]), ax)


def take(a, idx, axis=None):
    a = asarr(a)
    if axis is None:
        return a.ravel()[idx]
    ax = axes_of(axis, a.ndim)[0]
    return a[tuple([slice(None)] * ax + [idx])]


def array_split(a, sections, axis=0, exact=False):
    a = asarr(a)
    ax = axes_of(axis, a.ndim)[0]
    n = a._shape[ax]
    pre = (slice(None),) * ax
    if not isinstance(sections, (int, S)):
        cuts = [0] + [dim(x) for x in tolist(sections)] + [n]
        return SList([a.view(pre + (slice(A_py(p), A_py(q)),)) for p, q in zip(cuts[:-1], cuts[1:])])
    g = dim(sections)
    if isinstance(g, int):
        if g <= 0:
            raise ValueError('number sections must be larger than 0.')
        if isinstance(n, int):
            if exact and n % g:
                raise ValueError('array split does not result in an equal division')
            q, r = divmod(n, g)
            out, o = [], 0
            for i in range(g):
                w = q + 1 if i < r else q
                out.append(a.view(pre + (slice(o, o + w),)))
                o += w
            return SList(out)
    elif not CTX.decide(tm.lt(tm.I0, it(g))):
        raise ValueError('number sections must be larger than 0.')
    if not CTX.decide(tm.eq(CTX.simp(tm.mod(it(n), it(g))), tm.I0)):
        if exact:
            raise ValueError('array split does not result in an equal division')
        raise Unsupported('array_split of a length that is not a multiple')
    q = dim(CTX.simp(tm.idiv(it(n), it(g))))

    def part(t):
        old = a.map
        off = dmul(t, q)
        return Arr(a.buf, a._shape[:ax] + (q,) + a._shape[ax + 1:],
                   lambda i: old(i[:ax] + (dadd(off, i[ax]),) + i[ax + 1:]), a.contig and ax == 0)
    if isinstance(g, int):
        return SList([part(i) for i in range(g)])
    t = tm.fresh('t', 'I')
    return SList([Seg(t, it(g), (part(t),))])


def A_py(x):
    return x if isinstance(x, int) else S(x)


def split(a, sections, axis=0):
    return array_split(a, sections, axis, exact=True)


def hsplit(a, k): return split(a, k, 0 if asarr(a).ndim == 1 else 1)
def vsplit(a, k): return split(a, k, 0)


def arange(*a, dtype=None):
    from .lists import range_
    if any_real(a):
        raise Unsupported('np.arange with real arguments')
    return asarr(range_(*a), dtype)


def any_real(a):
    for x in a:
        t = lift(x)
        if t is None or t.sort == 'R':
            return True
    return False


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = dim(num)
    a, b = asarr(start), asarr(stop)
    sh = bshape(a._shape, b._shape)
    ra, rb = bread(a, sh), bread(b, sh)
    if retstep or axis not in (0, -1) or axis == -1 and sh:
        raise Unsupported('linspace options')
    d = dsub(n, 1) if endpoint else n

    def f(idx):
        k = tm.toreal(it(idx[0]))
        p, q = tm.toreal(_num(ra(idx[1:]))), tm.toreal(_num(rb(idx[1:])))
        if isinstance(d, int):
            return tm.add(p, tm.mul(k, tm.sub(q, p), tm.const(Fraction(1, d)))) if d > 0 else p
        dd = tm.toreal(it(d))
        if CTX.entails(tm.lt(tm.I0, it(d))):
            return tm.add(p, tm.mul(k, tm.sub(q, p), tm.inv(dd)))
        return tm.ite(tm.le(it(d), tm.I0), p, tm.add(p, tm.mul(k, tm.sub(q, p), tm.inv(dd))))
    return build((n,) + sh, 'f', f)


_num = num


def interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported('interp options')
    x, xp, fp = asarr(x), asarr(xp), asarr(fp)
    n = xp._shape[0]
    if not deq(n, fp._shape[0]):
        raise ValueError('fp and xp are not of the same length.')
    if not isinstance(n, int):
        # contract for nodes in increasing order (the only ones numpy defines)
        return out0(unop(x, lambda t: interp_term(tm.toreal(_num(t)), n, lambda i: tm.toreal(_num(xp.read((i,)))), lambda i: tm.toreal(_num(fp.read((i,))))), 'f'))
    X = [tm.toreal(_num(xp.read((i,)))) for i in range(n)]
    F = [tm.toreal(_num(fp.read((i,)))) for i in range(n)]

    def f(t):
        t = tm.toreal(_num(t))
        r = F[-1]
        for i in range(n - 2, -1, -1):
            seg = tm.add(F[i], tm.mul(tm.sub(t, X[i]), tm.sub(F[i + 1], F[i]), tm.inv(tm.sub(X[i + 1], X[i]))))
            r = tm.ite(tm.lt(t, X[i + 1]), seg, r)
        if n == 1:
            return F[0]
        return tm.ite(tm.lt(t, X[0]), F[0], r)
    return out0(unop(x, f, 'f'))


def interp_term(t, n, X, Y):
    n = it(n)
    k = tm.fresh('ip', 'I')
    last = tm.sub(n, tm.I1)

    def body():
        k1 = tm.add(k, tm.I1)
        a, b, p, q = X(k), X(k1), Y(k), Y(k1)
        return tm.ite(tm.and_(tm.le(a, t), tm.lt(t, b)), tm.add(p, tm.mul(tm.sub(t, a), tm.sub(q, p), tm.inv(tm.sub(b, a)))), tm.R0)
    s = tm.mksum(k, last, A.generic([(k, last)], lambda: S(body())).t)
    return tm.ite(tm.lt(t, X(tm.I0)), Y(tm.I0), tm.ite(tm.le(X(last), t), Y(last), s))


def fingerprint(n, X):
    """a number determined by the contents of an array (uninterpreted): equal arrays have equal fingerprints"""
    k = tm.fresh('fp', 'I')
    n = it(n)
    if n.op == 'c':
        return tm.add(*[tm.app('@w', (tm.const(i, 'I'), norm_(X(tm.const(i, 'I')))), 'R') for i in range(int(n.args[0]))])
    b = A.generic([(k, n)], lambda: S(tm.app('@w', (k, norm_(X(k))), 'R')))
    return tm.mksum(k, n, b.t)


def norm_(t):
    from . import norm
    return norm.canon(tm.toreal(_num(t)))


def spline_term(t, n, X, Y):
    """interpolating cubic spline through the nodes (not-a-knot), evaluated at t"""
    return tm.app('@spline', (norm_(t), tm.toreal(it(n)), fingerprint(n, X), fingerprint(n, Y)), 'R')


def polyval(p, x):
    p = asarr(p)
    n = p._shape[0]
    if not isinstance(n, int):
        raise Unsupported('polyval')
    x = asarr(x)

    def f(t):
        r = tm.R0
        for i in range(n):
            r = tm.add(tm.mul(r, tm.toreal(_num(t))), tm.toreal(_num(p.read((i,)))))
        return r
    return out0(unop(x, f, 'f'))


def shape(a):
    return asarr(a).shape


def ndim(a):
    return asarr(a).ndim


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def isscalar(x):
    return lift(x) is not None


def set_printoptions(*a, **k):
    return None


def errstate(**k):
    import contextlib
    return contextlib.nullcontext()


def seterr(**k):
    return {}


# ---------------------------------------------------------------- linalg
class linalg:
    LinAlgError = type('LinAlgError', (Exception,), {})

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if ord not in (None, 2) or (ord == 2 and x.ndim != 1 and axis is None):
            raise Unsupported('norm ord')
        return _reduce(x, axis, keepdims, 'f',
                       lambda d, rd: tm.sqrt(tm.toreal(sum_over(d, lambda r: tm.power(tm.toreal(_num(rd(r))), 2)))))

    @staticmethod
    def multi_dot(ms):
        ms = [asarr(m) for m in tolist(ms)]
        r = ms[0]
        for m in ms[1:]:
            r = dot(r, m)
        return r

    @staticmethod
    def solve(a, b):
        a, b = asarr(a).snap(), asarr(b).snap()
        n = a._shape[0]
        if a.ndim != 2 or not deq(a._shape[1], n):
            raise linalg.LinAlgError('Last 2 dimensions of the array must be square')
        if b.ndim == 2 and b._shape[1] == 1:
            return linalg.solve(a, b.view((slice(None), 0))).view((slice(None), None))
        if b.ndim != 1:
            raise Unsupported('solve with several right-hand sides')
        if not deq(b._shape[0], n):
            raise ValueError('solve: mismatch in its core dimension')
        nm = '@solve%d' % next(_n)
        x = Arr(Buf((n,), 'f', ('app', nm, 'R')))
        SOLVES.append((a, b, x))
        if isinstance(n, int):
            for i in range(n):
                CTX.assume(tm.eq(sum_over([n], lambda r: tm.mul(a.read((i,) + r), x.read(r))), tm.toreal(_num(b.read((i,))))))
            return x
        i = tm.fresh('i', 'I')
        v = gterm([(i, n)], lambda: tm.eq(sum_over([n], lambda r: tm.mul(a.read((i,) + r), x.read(r))), tm.toreal(_num(b.read((i,))))))
        CTX.assume(tm.forall(i, it(n), v))
        return x

    @staticmethod
    def det(a):
        a = asarr(a)
        n = a._shape[0]
        if a.ndim != 2 or n not in (1, 2, 3):
            raise Unsupported('det')
        return wrap(_det([[tm.toreal(_num(a.read((i, j)))) for j in range(n)] for i in range(n)]))

    @staticmethod
    def inv(a):
        a = asarr(a)
        n = a._shape[0]
        if a.ndim != 2 or not deq(n, a._shape[1]):
            raise linalg.LinAlgError('Last 2 dimensions of the array must be square')
        if n not in (1, 2, 3):   # only as a factor: inv(A) @ b is the solution of A x = b
            def no(idx):
                raise Unsupported('inverse of a matrix of general size')
            r = Arr(Buf((n, n), 'f', ('app', '@inv', 'R')), map=no)
            r.inv_of = a.snap()
            return r
        M = [[tm.toreal(_num(a.read((i, j)))) for j in range(n)] for i in range(n)]
        d = _det(M)
        defined(tm.not_(tm.eq(d, tm.R0)), 'matrix inverse')
        r = {}
        for i in range(n):
            for j in range(n):
                mi = [[M[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
                r[i, j] = tm.scale((-1) ** (i + j), tm.div(_det(mi) if mi else tm.R1, d))
        return build((n, n), 'f', lambda i: r[i])


SOLVES = []


def _det(M):
    if len(M) == 1:
        return M[0][0]
    if not M:
        return tm.R1
    out = []
    for j in range(len(M)):
        mi = [[r[q] for q in range(len(M)) if q != j] for r in M[1:]]
        out.append(tm.scale((-1) ** j, tm.mul(M[0][j], _det(mi))))
    return tm.add(*out)


class testing:
    @staticmethod
    def assert_almost_equal(a, b, decimal=7, err_msg='', verbose=True):
        a, b = asarr(a), asarr(b)
        tol = tm.const(Fraction(15, 10) * Fraction(1, 10 ** int(decimal)))
        def near(x, y):
            from .prove import quick_zero
            d = tm.sub(tm.toreal(_num(x)), tm.toreal(_num(y)))
            if quick_zero(d):
                return tm.TRUE
            return tm.lt(tm.absval(d), tol)
        ok = all(binop(a, b, near, 'b'))
        if not bool(ok):
            raise AssertionError('Arrays are not almost equal')

    assert_array_almost_equal = assert_almost_equal

    @staticmethod
    def assert_allclose(a, b, rtol=None, atol=None, **k):
        if not bool(allclose(a, b, tm.const(Fraction(1, 10 ** 7)) if rtol is None else rtol, tm.R0 if atol is None else atol)):
            raise AssertionError('Not equal to tolerance')

    @staticmethod
    def assert_array_equal(a, b, **k):
        if not bool(array_equal(a, b)):
            raise AssertionError('Arrays are not equal')
    assert_equal = assert_array_equal


METHODS = {'sum', 'mean', 'min', 'max', 'any', 'all', 'dot', 'repeat', 'cumsum', 'prod', 'clip', 'trace', 'take'}


# ---------------------------------------------------------------- further functions
def apply_along_axis(f, axis, a, *args, **kw):
    a = asarr(a)
    ax = axes_of(axis, a.ndim)[0]
    r = _rows(lambda x: f(x, *args, **kw), moveaxis(a, ax, -1), a.ndim - 1)
    if r.ndim == a.ndim and a.ndim > 1:
        r = moveaxis(r, -1, ax)
    return r


def _rows(f, a, depth):
    from .loops import listcomp
    if depth == 0:
        return asarr(f(a))
    return asarr(listcomp(a, lambda x: _rows(f, x, depth - 1), ()))


class vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if signature is not None or excluded:
            raise Unsupported('np.vectorize options')
        self.f = pyfunc

    def __call__(self, *args):
        if self.f is None:
            return vectorize(*args)
        args = [asarr(a) for a in args]
        sh = bshape(*[a._shape for a in args])
        if not sh:
            return self.f(*[a.item() for a in args])
        from .loops import listcomp
        bs = [broadcast_to(a, tuple(d if isinstance(d, int) else S(d) for d in sh)) for a in args]
        from .lists import zip_

        def rec(xs, k):
            if k == 0:
                return self.f(*xs)
            return asarr(listcomp(zip_(*xs), lambda e: rec(e, k - 1), ()))
        return rec(bs, len(sh))


def fromiter(it_, dtype=None, count=-1):
    return asarr(tolist(it_), dtype)


def fromfunction(f, shape, dtype=None):
    return asarr(f(*indices(shape)))


def indices(shape, dtype=None):
    sh = tuple(dim(d) for d in shape)
    return SList([build(sh, 'i', lambda i, k=k: it(i[k])) for k in range(len(sh))])


def select(conds, choices, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(tolist(conds), tolist(choices)))):
        r = asarr(where(c, v, r))
    return r


def piecewise(x, conds, funcs):
    x = asarr(x)
    conds, funcs = list(tolist(conds)), list(tolist(funcs))
    r = zeros_like(x)
    if len(funcs) == len(conds) + 1:
        o = conds[0]
        for c in conds[1:]:
            o = logical_or(o, c)
        conds, funcs = conds + [logical_not(o)], funcs
    for c, f in zip(conds, funcs):
        r = where(c, f(x) if callable(f) else f, r)
    return asarr(r)


def dstack(arrs):
    xs = [asarr(a) for a in tolist(arrs)]
    xs = [x.view((None, slice(None), None)) if x.ndim == 1 else x.view((slice(None), slice(None), None)) if x.ndim == 2 else x for x in xs]
    return concatenate(SList(xs), 2)


def block(rows):
    if isinstance(rows, (SList, list)):
        xs = list(tolist(rows))
        if xs and isinstance(xs[0], (SList, list)):
            return concatenate(SList([block(x) for x in xs]), -2)
        return concatenate(SList([asarr(x) for x in xs]), -1)
    return asarr(rows)


def pad(a, width, mode='constant', constant_values=0):
    a = asarr(a)
    if mode != 'constant':
        raise Unsupported('np.pad mode')
    w = asarr(width)
    for ax in range(a.ndim):
        lo, hi = [dim(wrap(num(bread(w, (a.ndim, 2))((ax, k))))) for k in (0, 1)]
        for n, front in ((lo, True), (hi, False)):
            if n == 0:
                continue
            sh = a._shape[:ax] + (n,) + a._shape[ax + 1:]
            c = build(sh, a.kind, lambda i: conv(lift(constant_values), a.kind))
            a = concatenate(SList([c, a] if front else [a, c]), ax)
    return a


def unstack(a, axis=0):
    return tuple(moveaxis(asarr(a), axis, 0))


def atleast_3d(a):
    a = asarr(a)
    return dstack([a]) if a.ndim < 3 else a


def broadcast_arrays(*args):
    args = [asarr(a) for a in args]
    sh = bshape(*[a._shape for a in args])
    return tuple(broadcast_to(a, tuple(d if isinstance(d, int) else S(d) for d in sh)) for a in args)


def vecdot(a, b, axis=-1):
    return sum(multiply(a, b), axis=axis)


def matrix_transpose(a): return swapaxes(a, -1, -2)
def matvec(a, b): return matmul(a, asarr(b)[..., None])[..., 0]
def permute_dims(a, axes=None): return transpose(a, axes)
def concat(arrs, axis=0): return concatenate(arrs, axis)
def nan_to_num(x, *a, **k): return x
def isneginf(x): return isinf(x)
def isposinf(x): return isinf(x)


def copysign(a, b):
    return multiply(abs(a), where(greater_equal(b, 0), 1.0, -1.0))


def heaviside(x, h):
    return where(less(x, 0), 0.0, where(equal(x, 0), h, 1.0))


def ediff1d(a):
    return diff(asarr(a).ravel())


class _S:
    def __getitem__(self, k): return k


s_ = index_exp = _S()
linalg.vector_norm = staticmethod(lambda x, axis=None, keepdims=False, ord=2: linalg.norm(x if axis is not None else asarr(x).ravel(), None, axis, keepdims))
linalg.matmul, linalg.cross, linalg.outer = staticmethod(matmul), staticmethod(cross), staticmethod(outer)
linalg.vecdot, linalg.trace, linalg.diagonal = staticmethod(vecdot), staticmethod(trace), staticmethod(diagonal)
