"""Concrete harness: the same contracts evaluated on the real code under CPython (replay of counterexamples and cross-check)."""
import importlib
import math
import sys
import types
import numpy as np
from . import env as envm
from .env import Env
from .fops import FloatOps, Skip
from .ob import OPAQUE, Out

RTOL = 1e-6
ATOL = 1e-9
CAP = 60


class ConcH(FloatOps):
    def __init__(self, ob, env):
        self.ob, self.env = ob, env
        self.failures = []
        self.n = 0
        self.nums = {}     # running number of a comparison -> (got, want)
        self.which = []    # for each failure: its comparison number if it is a difference of two finite numbers
        self._patched = []
        self._inputs = []

    # -- inputs
    def real(self, name, lo=None, hi=None, specials=(), wide=None):
        self.env.gen[name] = envm.gen_real(lo, hi, specials, wide)
        lo, hi = wide or (lo, hi)
        v = float(self.env.named(name, 'R'))
        if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)):
            raise Skip('bounds')
        return v

    def arr(self, name, shape, kind='f', lo=None, hi=None, specials=(), p=0.5, inc=False, wide=None):
        sh = tuple(int(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        if np.prod(sh) > 20000 or any(d < 0 for d in sh):
            raise Skip('size')
        if kind == 'f':
            self.env.gen[name] = envm.gen_inc(lo, hi, inc) if inc else envm.gen_real(lo, hi, specials, wide)
            lo, hi = wide or (lo, hi)
        elif kind == 'i':
            self.env.gen[name] = envm.gen_int(lo or 0, hi or 3)
        else:
            self.env.gen[name] = envm.gen_bool(p)
        a = np.zeros(sh, dtype={'f': float, 'i': int, 'b': bool}[kind])
        for ix in np.ndindex(*sh):
            a[ix] = self.env.app(name, tuple(int(i) for i in ix), {'f': 'R', 'i': 'I', 'b': 'B'}[kind])
        if kind == 'f' and ((lo is not None and a.size and a.min() < float(lo)) or (hi is not None and a.size and a.max() > float(hi))):
            raise Skip('bounds')
        return self._input(name, a)

    def _input(self, name, a):
        self._inputs.append((name, a, a.copy()))
        return a

    def made(self, *arrs):
        """the harness has changed these inputs itself"""
        self._inputs = [x for x in self._inputs if not any(x[1] is a for a in arrs)] + [('array', a, a.copy()) for a in arrs]

    def frame(self):
        """the code did not write into the arrays it was given"""
        for name, a, b in self._inputs:
            if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
                self._bad('input %s unchanged' % name, 'changed')

    def vec(self, name, n=3, **k):
        return self.arr(name, (n,), **k)

    def dim(self, name, lo=1, hi=3):
        self.env.gen[name] = envm.gen_dim(lo, hi, self.ob.big)
        v = int(self.env.named(name, 'I'))
        if v < lo or v > 400:
            raise Skip('size')
        return v

    def int(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    def choice(self, name, options):
        options = list(options)
        self.env.gen[name] = envm.gen_int(0, len(options) - 1)
        return options[int(self.env.named(name, 'I')) % len(options)]

    def bool(self, name):
        self.env.gen[name] = envm.gen_bool()
        return bool(self.env.named(name, 'B'))

    def assume(self, c):
        if not c:
            raise Skip('precondition')

    def hint(self, i): pass

    def assume_all(self, n, f):
        self.assume(self.all(n, f))

    def array(self, x):
        a = np.array(x)
        return self._input('array', a) if a.dtype != object else a

    def asarr(self, x): return np.asarray(x)

    def conv(self, x):
        return x

    lst = conv

    def grid(self, shape, f):
        sh = tuple(int(d) for d in shape)
        if np.prod(sh) > 20000:
            raise Skip('size')
        a = np.zeros(sh)
        for ix in np.ndindex(*sh):
            a[ix] = f(*[int(i) for i in ix])
        return self._input('grid', a)

    # -- running code
    def mod(self, name):
        return importlib.import_module(name)

    def outcome(self, fn):
        try:
            return Out('ok', fn())
        except (Skip, envm.Undefined):
            raise
        except (Exception, SystemExit) as e:
            return Out('exc', e)

    def each(self, *ns):
        sh = [int(k) for k in ns]
        n = int(np.prod(sh))
        if min(sh) <= 0:
            return
        pick = range(n)
        if n > CAP:
            pick = sorted(set(range(CAP // 3)) | set(range(n - CAP // 3, n)) | {int(self.env.u('@pick', (k,)) * n) for k in range(CAP // 3)})
        for q in pick:
            ix = tuple(int(i) for i in np.unravel_index(q, sh))
            yield ix if len(ns) > 1 else ix[0]

    def len(self, x):
        return len(x)

    def at(self, x, *idx):
        for i in idx:
            x = x[i]
        return x

    def v3(self, a, *idx):
        for i in idx:
            a = a[i]
        return [self.scalar(a[k]) for k in range(3)]

    def scalar(self, x):
        return float(x)

    def table(self, df):
        cols = list(df.columns)
        if 'Quantity' in cols and 'Value' in cols:
            return dict(zip(df['Quantity'], df['Value']))
        return {c: df[c].to_numpy() for c in cols}

    def fn(self, name, *args):
        spec, lens, outn = OPAQUE[name]
        a = []
        for x, n in zip(args, lens):
            a.append(float(x) if n == 1 else [float(v) for v in x])
        return spec(self, *a)

    def assign(self, obj, name, val):
        object.__setattr__(obj, name, val)

    def bare(self, cls):
        return object.__new__(cls)

    def patch(self, mod, name, val):
        self._patched.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    # -- obligations
    def _bad(self, *a):
        if a:
            self.failures.append(a)
            self.which.append(None)
        else:
            raise Skip('undefined')

    def eq(self, name, got, want, tol=None, scale=0.0):
        if callable(want):
            want = want()
        self.n += 1
        if isinstance(want, (list, tuple)):
            try:
                n = len(got)
            except TypeError:
                return self._bad(name, 'not a sequence', repr(got)[:200])
            if n != len(want):
                return self._bad(name, 'length %d, expected %d' % (n, len(want)), repr(got)[:200])
            sc = scale
            for w in want:
                if isinstance(w, (float, int, np.floating)) and math.isfinite(w):
                    sc = max(sc, abs(w))
            for k in range(n):
                self.eq('%s[%d]' % (name, k), got[k], want[k], tol, sc)
            return
        if isinstance(want, np.ndarray) and want.ndim:
            return self.eqarr(name, got, want, tol)
        if isinstance(want, str) or want is None:
            if got is None and want is None or (isinstance(got, str) and got == want):
                return
            return self._bad(name, 'got %r' % (got,), 'want %r' % (want,))
        try:
            g = np.asarray(got)
            if g.size != 1 or g.ndim != 0:
                return self._bad(name, 'got an array of shape %s' % (g.shape,), 'want a number')
            if g.dtype == object or g.dtype.kind in 'US':
                return self._bad(name, 'got %r' % (got,), 'want %r' % (want,))
            g = g.item()
        except Exception as e:
            return self._bad(name, 'got %r' % (got,), str(e))
        if isinstance(want, (bool, np.bool_)):
            if bool(g) != bool(want):
                self._bad(name, 'got %r' % g, 'want %r' % want)
            return
        w = float(want)
        g = float(g)
        if not math.isfinite(w):
            raise Skip('undefined')
        self.nums[self.n] = (g, w)
        if not math.isfinite(g) or abs(g - w) > (tol or RTOL) * max(abs(w), scale) + ATOL:
            self._bad(name, 'got %r' % g, 'want %r' % w)
            self.which[-1] = self.n

    def eqarr(self, name, got, want, tol=None):
        want = np.asarray(want, dtype=float)
        try:
            got = np.asarray(got, dtype=float)
        except Exception as e:
            return self._bad(name, 'not an array', str(e))
        if got.shape != want.shape:
            return self._bad(name, 'shape %s' % (got.shape,), 'want %s' % (want.shape,))
        sc = float(np.max(np.abs(want))) if want.size else 0.0
        n = 0
        for ix in np.ndindex(*want.shape):
            n += 1
            if n > 4 * CAP:
                break
            self.eq('%s%s' % (name, list(ix)), got[ix], float(want[ix]), tol)

    def true(self, name, cond, soft=False):
        if callable(cond):
            cond = cond()
        self.n += 1
        if not bool(cond):
            self._bad(name, 'condition is false')

    def shape(self, name, got, shape):
        self.n += 1
        sh = np.shape(got)
        if tuple(int(x) for x in sh) != tuple(int(x) for x in shape):
            self._bad(name + '.shape', 'shape %s' % (sh,), 'want %s' % (tuple(shape),))

    def fail(self, name, why=''):
        self._bad(name, why)


def run_once(ob, env):
    """-> (status, failures, checks): status in ok / fail / skip"""
    st, h = attempt(ob, env)
    if st == 'fail' and any(w is not None for w in h.which):
        keep = robust(ob, env, h)
        if not keep:
            return 'skip', [], h.n
        return 'fail', [h.failures[k] for k in keep], h.n
    return st, h.failures, h.n


def attempt(ob, env):
    h = ConcH(ob, env)
    try:
        with np.errstate(all='ignore'):
            ob.fn(h)
            h.frame()
    except (Skip, envm.Undefined):
        return 'skip', h
    except (Exception, SystemExit) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = ' '.join('%s:%d' % (f.filename, f.lineno) for f in tb[-3:])
        h._bad('no exception', '%s: %s' % (type(e).__name__, str(e)[:300]), where)
    finally:
        for m, n, v in reversed(h._patched):
            setattr(m, n, v)
    return ('fail' if h.failures else 'ok'), h


def robust(ob, env, h, runs=9):
    """indices of the failures that are no rounding effect: changing the inputs by a few units in the last place (the same for equal values; zeros and whole
    numbers stay) moves neither side by a noticeable part of their difference, nor does changing whole numbers move the specified value"""
    cand = [k for k, w in enumerate(h.which) if w is not None]
    noise = set()
    for r in range(runs):
        def p(v):
            if isinstance(v, float) and math.isfinite(v) and (r >= 6 or abs(v) > 1e300 or v != int(v)):
                u = envm.Env(('ulp', r)).u('x', (v,))
                return v * (1 + (2 * u - 1) * 1e-15 * (1 + r % 6))
            return v
        e = Env(env.seed, {k: p(v) for k, v in env.vars.items()}, env.fns, env.gen, {k: p(v) for k, v in env.used.items()})
        _, q = attempt(ob, e)
        for k in cand:
            if h.which[k] in q.nums:
                g, w = h.nums[h.which[k]]
                g2, w2 = q.nums[h.which[k]]
                far = abs(g - w) if math.isfinite(g) else abs(w)
                if abs(w - w2) > 0.05 * far or r < 6 and (math.isfinite(g) != math.isfinite(g2) or math.isfinite(g) and abs(g - g2) > 0.05 * far):
                    noise.add(k)
    return [k for k in range(len(h.failures)) if k not in noise]
