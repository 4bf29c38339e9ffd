"""Float interpretation of the specification vocabulary (used on the real code and for numeric screening)."""
import math


class Skip(Exception):
    """this sample is too close to a decision threshold to be compared, or outside the precondition"""


class FloatOps:
    sym = False
    pi = math.pi
    eps = 1e-9

    def sqrt(self, x): return math.sqrt(x) if x > 0 else 0.0 if x > -1e-9 else self._bad()
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def tan(self, x): return math.tan(x)
    def atan(self, x): return math.atan(x)
    def atan2(self, y, x): return math.atan2(y, x)
    def asin(self, x): return math.asin(max(-1.0, min(1.0, x)))
    def acos(self, x): return math.acos(max(-1.0, min(1.0, x)))
    def log(self, x): return math.log(x) if x > 0 else self._bad()
    def exp(self, x): return math.exp(x)
    def rpow(self, x, y): return x ** y if x > 0 else (0.0 if x == 0 and y > 0 else self._bad())
    def fabs(self, x): return abs(x)

    def _bad(self):
        raise Skip('undefined')

    def _near(self, a, b):
        if a != b and abs(a - b) <= self.eps * max(abs(a), abs(b)):
            raise Skip('near a threshold')

    def nz(self, x, size):
        """x, not vanishing next to size: samples where it does are too close to a singularity to be compared"""
        if abs(x) <= 1e-12 * size:
            raise Skip('near a singularity')
        return x

    def lt(self, a, b):
        self._near(a, b)
        if a == b and isinstance(a, float) and abs(a) > 0 and a != int(a):
            raise Skip('on a threshold')
        return bool(a < b)

    def le(self, a, b): return not self.lt(b, a)
    def gt(self, a, b): return self.lt(b, a)
    def ge(self, a, b): return self.le(b, a)
    def same(self, a, b): return bool(a == b)

    def and_(self, *xs):
        return all([bool(x() if callable(x) else x) for x in xs])

    def or_(self, *xs):
        return any([bool(x() if callable(x) else x) for x in xs])

    def not_(self, x): return not x

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def div(self, a, b):
        if b == 0:
            raise Skip('division by zero')
        return a / b

    def num(self, s): return float(s)

    def minimum(self, n, f):
        return min(f(i) for i in range(int(n)))

    def sum(self, n, f):
        vs = [f(i) for i in range(int(n))]
        if not vs:
            return 0.0
        if isinstance(vs[0], (list, tuple)):
            return [math.fsum(v[k] for v in vs) for k in range(len(vs[0]))]
        return math.fsum(vs)

    def all(self, n, f): return all(bool(f(i)) for i in range(int(n)))
    def any(self, n, f): return any(bool(f(i)) for i in range(int(n)))

    def interp(self, t, n, X, Y):
        if t <= X(0):
            return Y(0)
        for i in range(n - 1):
            if X(i) <= t < X(i + 1):
                return Y(i) + (t - X(i)) * (Y(i + 1) - Y(i)) / (X(i + 1) - X(i))
        return Y(n - 1)

    def spline(self, t, n, X, Y):
        from scipy.interpolate import CubicSpline
        if n < 4:
            raise Skip('spline needs four nodes')
        return float(CubicSpline([X(i) for i in range(n)], [Y(i) for i in range(n)], bc_type='not-a-knot')(t))

    def idiv(self, a, b): return int(a) // int(b)
    def mod(self, a, b): return int(a) % int(b)


F = FloatOps()
