"""Libraries as seen by the verified code (trusted contracts). Unknown names are importable but unusable."""
import types
from fractions import Fraction
from . import terms as tm
from . import norm
from . import shim_np as N
from .core import CTX, S, Unsupported, lift, num, wrap, defined
from .arr import Arr, build, it
from .lists import SList, tolist, as_iter


class Mod:
    """module facade"""

    def __init__(self, name, d, permissive=False):
        self.__dict__['_name'] = name
        self.__dict__['_d'] = d

    def __getattr__(self, a):
        d = self.__dict__['_d']
        if a in d:
            return d[a]
        if a.startswith('__') and a not in ('__version__',):
            raise AttributeError(a)
        from .loader import Stub
        return Stub(self.__dict__['_name'] + '.' + a)


def _np():
    d = {k: v for k, v in vars(N).items() if not k.startswith('_')}
    for k in ('itertools', 'Fraction', 'tm', 'T', 'CTX', 'S', 'Unsupported', 'lift', 'num', 'wrap', 'tob', 'sdiv', 'spow', 'defined',
              'A', 'Arr', 'Buf', 'dim', 'it', 'dadd', 'dsub', 'dmul', 'deq', 'build', 'generic', 'gterm', 'bshape', 'bread', 'binop',
              'unop', 'out0', 'conv', 'cells', 'SList', 'Seg', 'SIter', 'tolist', 'as_iter', 'Poison', 'USED', 'NANABLE', 'SOLVES',
              'METHODS', 'DT', 'scalar', 'asarr', 'shp', 'axes_of', 'sum_over', 'quant_over', 'max_over', 'A_py', 'any_real'):
        d.pop(k, None)
    la = Mod('numpy.linalg', {k: getattr(N.linalg, k) for k in ('norm', 'multi_dot', 'solve', 'det', 'inv', 'LinAlgError', 'vector_norm', 'matmul', 'cross',
                                                         'outer', 'vecdot', 'trace', 'diagonal')})
    te = Mod('numpy.testing', {k: getattr(N.testing, k) for k in vars(N.testing) if k.startswith('assert')})
    d['linalg'] = la
    d['testing'] = te
    d['float'] = N.float64
    d['e'] = S(tm.fn('exp', tm.R1))
    return Mod('numpy', d), la, te


# ---------------------------------------------------------------- math
def _m1(f):
    def g(x):
        if isinstance(x, Arr):
            x = x.item()
        return f(x)
    return g


def _math():
    d = {k: _m1(getattr(N, k)) for k in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'radians', 'degrees', 'fabs')}
    d.update(atan=_m1(N.arctan), asin=_m1(N.arcsin), acos=_m1(N.arccos), atan2=N.arctan2, hypot=N.hypot, pi=N.pi)

    def pw(a, b):
        return S(tm.toreal(num(lift(a)))) ** b

    def isnan(x):
        return N.isnan(x)

    def isclose(a, b, rel_tol=None, abs_tol=None):
        raise Unsupported('math.isclose')

    def fsum(x):
        return N.sum(x)

    def dist(a, b):
        return N.linalg.norm(N.asarr(a) - N.asarr(b))
    d.update(pow=pw, isnan=isnan, isclose=isclose, fsum=fsum, dist=dist)
    return Mod('math', d)


# ---------------------------------------------------------------- numba: compilation is the identity
class NType:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return NType(self.n + '.' + a)


def _jit(*a, **k):
    if a and isinstance(a[0], types.FunctionType):
        return a[0]
    return lambda f: f


class TypedList:
    def __new__(cls, x=()):
        return SList(tolist(x).parts)

    @staticmethod
    def empty_list(*a):
        return SList([])


class NumbaMod(Mod):
    def __getattr__(self, a):
        d = self.__dict__['_d']
        if a in d:
            return d[a]
        if a.startswith('__'):
            raise AttributeError(a)
        return NType('numba.' + a)


def _numba():
    from .lists import range_
    d = {k: NType(k) for k in ('float64', 'float32', 'int64', 'int32', 'boolean', 'bool_', 'void', 'types', 'core', 'errors', 'typeof',
                               'f8', 'i8', 'b1', 'u8', 'none')}
    typed = Mod('numba.typed', {'List': TypedList})
    d.update(jit=_jit, njit=_jit, prange=range_, typed=typed, vectorize=_jit, guvectorize=_jit)
    return NumbaMod('numba', d), typed


# ---------------------------------------------------------------- scipy
class Rotation:
    """Rodrigues' formula (trusted contract of scipy.spatial.transform.Rotation)"""

    def __init__(self, m):
        self.m = m

    @staticmethod
    def from_rotvec(v, degrees=False):
        v = N.asarr(v)
        if v.ndim != 1:
            raise Unsupported('several rotation vectors')
        c = [tm.toreal(num(v.read((i,)))) for i in range(3)]
        if degrees:
            c = [tm.mul(x, tm.PI, tm.const(Fraction(1, 180))) for x in c]
        nz = [i for i in range(3) if c[i] is not tm.R0]
        if not nz:
            return Rotation(_mat(tm.R0, [tm.R1, tm.R0, tm.R0]))
        if len(nz) == 1:
            ax = [tm.R0] * 3
            ax[nz[0]] = tm.R1
            return Rotation(_mat(c[nz[0]], ax))
        # common factor
        com = None
        for i in nz:
            k, ps = tm._prod(c[i])
            d = dict(ps)
            com = d if com is None else {b: (min(e, d[b]) if e > 0 else max(e, d[b])) for b, e in com.items() if b in d and (e > 0) == (d[b] > 0)}
        s = tm.from_prod(Fraction(1), com, 'R')
        # prefer the factor that leaves a unit axis
        for cand in [tm.power(b, e) for b, e in com.items()] + [s, tm.R1]:
            k = [tm.mul(x, tm.inv(cand)) if x is not tm.R0 else x for x in c]
            n2 = tm.add(*[tm.mul(x, x) for x in k])
            if norm.is_zero(tm.sub(n2, tm.R1)):
                return Rotation(_mat(cand, k))
        k = [tm.mul(x, tm.inv(s)) if x is not tm.R0 else x for x in c]
        n2 = tm.add(*[tm.mul(x, x) for x in k])
        defined(tm.not_(tm.eq(n2, tm.R0)), 'rotation vector of zero length')
        l = tm.sqrt(n2)
        return Rotation(_mat(tm.mul(s, l), [tm.div(x, l) for x in k]))

    @staticmethod
    def from_matrix(m):
        m = N.asarr(m)
        return Rotation([[tm.toreal(num(m.read((i, j)))) for j in range(3)] for i in range(3)])

    @staticmethod
    def from_euler(seq, angles, degrees=False):
        if len(seq) != 1:
            raise Unsupported('euler angles')
        t = tm.toreal(num(lift(angles)))
        if degrees:
            t = tm.mul(t, tm.PI, tm.const(Fraction(1, 180)))
        ax = [tm.R0] * 3
        ax['xyz'.index(seq.lower())] = tm.R1
        return Rotation(_mat(t, ax))

    def as_matrix(self):
        return build((3, 3), 'f', lambda i: self.m[i[0]][i[1]])

    def apply(self, ps, inverse=False):
        ps = N.asarr(ps)
        m = self.m if not inverse else [[self.m[j][i] for j in range(3)] for i in range(3)]
        return build(ps._shape, 'f', lambda i: tm.add(*[tm.mul(m[i[-1]][j], tm.toreal(num(ps.read(i[:-1] + (j,))))) for j in range(3)]))

    def inv(self):
        return Rotation([[self.m[j][i] for j in range(3)] for i in range(3)])


def _mat(a, k):
    c, s = tm.cos(a), tm.sin(a)
    C = tm.sub(tm.R1, c)
    x, y, z = k
    K = [[tm.R0, tm.neg(z), y], [z, tm.R0, tm.neg(x)], [tm.neg(y), x, tm.R0]]
    return [[tm.add(c if i == j else tm.R0, tm.mul(C, k[i], k[j]), tm.mul(s, K[i][j])) for j in range(3)] for i in range(3)]


# ---------------------------------------------------------------- scipy.interpolate (contract: interpolating cubic spline)
class Tck:
    def __init__(self, n, X, Y, opts):
        self.n, self.X, self.Y, self.opts = n, X, Y, opts


def _const(v):
    if v is None or isinstance(v, (int, float)):
        return v
    t = CTX.simp(lift(v))
    if t.op != 'c':
        raise Unsupported('symbolic spline option')
    return int(t.args[0]) if t.args[0].denominator == 1 else float(t.args[0])


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    if w is not None or xb is not None or xe is not None or task != 0 or t is not None or full_output or per:
        raise Unsupported('splrep options')
    x, y = N.asarr(x), N.asarr(y)
    k, s = _const(k), _const(s)
    return Tck(x._shape[0], x, y, (k, 0 if not s else s))


def splev(x, tck, der=0, ext=0):
    if not isinstance(tck, Tck):
        raise Unsupported('splev')
    n, X, Y = tck.n, tck.X, tck.Y
    rd = lambda a: (lambda i: tm.toreal(num(a.read((i,)))))

    def f(t):
        r = N.spline_term(num(t), n, rd(X), rd(Y))
        der_ = _const(der)
        if tck.opts != (3, 0) or der_:
            r = tm.app('@spline_%s_%s_%s' % (tck.opts[0], tck.opts[1], der_), r.args[1:], 'R')
        return r
    return N.out0(N.unop(N.asarr(x), f, 'f'))


# ---------------------------------------------------------------- pandas (tables as dictionaries)
class Frame:
    """a table: column label -> values; a one-row table that was transposed is label -> value rows"""
    _pyvc_frame = True

    def __init__(self, cols, rows=None):
        self.cols = cols
        self.rows = rows

    @staticmethod
    def from_records(d, index=None):
        if not isinstance(d, dict):
            raise Unsupported('DataFrame.from_records of a non-dictionary')
        return Frame(dict(d), tuple(tolist(index)) if index is not None else None)

    def transpose(self):
        if self.rows is None or len(self.rows) != 1:
            raise Unsupported('transpose of a table')
        f = Frame(dict(self.cols), self.rows)
        f.tr = True
        return f
    T = property(transpose)

    def reset_index(self, inplace=False, drop=False):
        return None if inplace else self

    def rename(self, columns=None, inplace=False, **k):
        if getattr(self, 'tr', False):
            return None if inplace else self
        m = dict(columns or {})
        f = Frame({m.get(k, k): v for k, v in self.cols.items()}, self.rows)
        if inplace:
            self.cols = f.cols
            return None
        return f


def table():
    from .loader import Stub
    np_, la, te = _np()
    nb, typed = _numba()
    rot = Mod('scipy.spatial.transform', {'Rotation': Rotation})
    interp = Mod('scipy.interpolate', {'splrep': splrep, 'splev': splev})
    spat = Mod('scipy.spatial', {'transform': rot})
    sla = Mod('scipy.linalg', {k: getattr(N.linalg, k) for k in ('norm', 'solve', 'det', 'inv')})
    sc = Mod('scipy', {'spatial': spat, 'interpolate': interp, 'linalg': sla})
    pd = Mod('pandas', {'DataFrame': Frame})
    return {'numpy': np_, 'numpy.linalg': la, 'numpy.testing': te, 'math': _math(), 'numba': nb, 'numba.typed': typed,
            'scipy': sc, 'scipy.linalg': sla, 'scipy.spatial': spat, 'scipy.spatial.transform': rot, 'scipy.interpolate': interp, 'pandas': pd}
