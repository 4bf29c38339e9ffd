"""Symbolic harness: runs a contract on the extracted code for all inputs and discharges its obligations."""
import contextlib
import importlib
import itertools
import json
import os
import sys
import time
import traceback
from fractions import Fraction
from . import terms as tm
from . import solve, norm, prove, sign, env as envm, loops, lists, shim_np as N
from .core import CTX, S, Explorer, Unsupported, Infeasible, PathLimit, lift, num, wrap, tob
from .arr import Arr, Buf, dim, it, generic, build, deq
from .lists import SList, tolist, merge_val, Poison
from .loader import Loader, GDict
from .fops import F as FLOAT, Skip
from .ob import OBS, OPAQUE, CONTRACT, LEMMA, Out


def T_(x):
    t = lift(x)
    if t is None:
        if isinstance(x, Arr) and x.ndim == 0:
            return x.read(())
        if isinstance(x, str):
            return N.strcode(x)
        raise TypeError('not a scalar: %r' % (x,))
    return t


def R_(x):
    return tm.toreal(num(T_(x)))


class SymOps:
    sym = True
    pi = S(tm.PI)

    def sqrt(self, x): return wrap(tm.sqrt(R_(x)))
    def sin(self, x): return wrap(tm.sin(R_(x)))
    def cos(self, x): return wrap(tm.cos(R_(x)))
    def tan(self, x): return wrap(tm.fn('tan', R_(x)))
    def atan(self, x): return wrap(tm.fn('atan', R_(x)))
    def atan2(self, y, x): return wrap(tm.fn('atan2', R_(y), R_(x)))
    def asin(self, x): return wrap(tm.fn('asin', R_(x)))
    def acos(self, x): return wrap(tm.fn('acos', R_(x)))
    def log(self, x): return wrap(tm.fn('log', R_(x)))
    def exp(self, x): return wrap(tm.fn('exp', R_(x)))
    def rpow(self, x, y): return wrap(tm.fn('rpow', R_(x), R_(y)))
    def fabs(self, x): return wrap(tm.absval(R_(x)))
    def lt(self, a, b): return wrap(tm.lt(num(T_(a)), num(T_(b))))
    def le(self, a, b): return wrap(tm.le(num(T_(a)), num(T_(b))))
    def gt(self, a, b): return self.lt(b, a)
    def ge(self, a, b): return self.le(b, a)

    def same(self, a, b):
        a, b = T_(a), T_(b)
        return wrap(tm.eq(a, b) if a.sort == b.sort else tm.eq(num(a), num(b)))

    def and_(self, *xs): return wrap(tm.and_(*[tob(T_(x() if callable(x) else x)) for x in xs]))
    def or_(self, *xs): return wrap(tm.or_(*[tob(T_(x() if callable(x) else x)) for x in xs]))
    def not_(self, x): return wrap(tm.not_(tob(T_(x))))

    def ite(self, c, a, b):
        c = CTX.simp(tob(T_(c)))
        if c is tm.TRUE:
            return a() if callable(a) else a
        if c is tm.FALSE:
            return b() if callable(b) else b
        if callable(a):
            ok, a = self._under(c, a)
            if not ok:
                return b() if callable(b) else b
        if callable(b):
            ok, b = self._under(tm.not_(c), b)
            if not ok:
                return a
        return self._merge(c, a, b)

    def _under(self, c, f):
        m = CTX.mark()
        try:
            CTX.assume(c)
            return True, f()
        except Infeasible:
            return False, None
        finally:
            CTX.undo_facts(m)

    def _merge(self, c, a, b):
        if isinstance(a, (list, tuple)):
            return [self._merge(c, x, y) for x, y in zip(a, b)]
        return merge_val(c, a, b)

    def nz(self, x, size): return x
    def div(self, a, b): return wrap(tm.div(R_(a), R_(b)))
    def num(self, s): return S(tm.const(Fraction(s) if isinstance(s, (str, int)) else Fraction(repr(s)), 'R'))

    def sum(self, n, f):
        n = dim(n)
        if isinstance(n, int):
            r = None
            for i in range(n):
                v = f(i)
                r = v if r is None else ([p + q for p, q in zip(r, v)] if isinstance(v, list) else r + v)
            return self.num(0) if r is None else r
        x = tm.fresh('hs', 'I')
        v = generic([(x, n)], lambda: _tup(f(S(x))))
        if isinstance(v, tuple):
            return [wrap(tm.mksum(x, n, R_(y))) for y in v]
        return wrap(tm.mksum(x, n, R_(v)))

    def minimum(self, n, f):
        return wrap(tm.neg(N.max_over((dim(n),), lambda i: R_(f(wrap(i[0]) if isinstance(i[0], tm.T) else i[0])), -1)))

    def all(self, n, f):
        n = dim(n)
        if isinstance(n, int):
            return self.and_(*[f(i) for i in range(n)])
        x = tm.fresh('hq', 'I')
        v = generic([(x, n)], lambda: f(S(x)))
        return wrap(tm.forall(x, n, tob(T_(v))))

    def any(self, n, f):
        return self.not_(self.all(n, lambda i: self.not_(f(i))))

    def interp(self, t, n, X, Y):
        """piecewise linear interpolation through the nodes X(i), Y(i), constant outside"""
        return wrap(N.interp_term(R_(t), dim(n), lambda i: R_(X(wrap(i))), lambda i: R_(Y(wrap(i)))))

    def spline(self, t, n, X, Y):
        return wrap(N.spline_term(R_(t), dim(n), lambda i: R_(X(wrap(i))), lambda i: R_(Y(wrap(i)))))

    def idiv(self, a, b):
        return wrap(CTX.simp(tm.idiv(T_(a), T_(b))))

    def mod(self, a, b):
        return wrap(CTX.simp(tm.mod(T_(a), T_(b))))


def _tup(v):
    return tuple(v) if isinstance(v, list) else v


OPS = SymOps()


# ---------------------------------------------------------------- opaque specification functions
def flat(a, n):
    """argument -> n scalar terms"""
    if n == 1:
        return [R_(a)]
    if isinstance(a, Arr):
        return [tm.toreal(num(a.read((i,)))) for i in range(n)]
    return [R_(x) for x in (a if isinstance(a, (list, tuple)) else tolist(a))]


def unflat(fl, lens):
    out, k = [], 0
    for n in lens:
        out.append(fl[k] if n == 1 else list(fl[k:k + n]))
        k += n
    return out


def opaque_app(name, args):
    spec, lens, outn = OPAQUE[name]
    fl = []
    for a, n in zip(args, lens):
        fl.extend(norm.canon(x) for x in flat(a, n))
    assert len(fl) == sum(lens), (name, len(fl))
    ts = [tm.app('%s#%d' % (name, k), fl, 'R') for k in range(outn)]
    return ts


def setup_opaque():
    import math
    setup_lemmas()
    envm.DEFNS['@w'] = lambda env, i, x: math.sin(1.7 * i + 0.3) * x + math.cos(0.9 * i) * x * x
    envm.DEFNS['@spline'] = lambda env, t, n, a, b: math.cos(t + 0.3 * n + 0.01 * a) + math.sin(t * b * 0.1)
    for name, (spec, lens, outn) in OPAQUE.items():
        for k in range(outn):
            def numeric(env, *fl, spec=spec, lens=lens, k=k, outn=outn):
                try:
                    r = spec(FLOAT, *unflat(list(fl), lens))
                except Skip:
                    raise envm.Undefined()
                return r[k] if outn > 1 else r

            def unfold(args, spec=spec, lens=lens, k=k, outn=outn):
                r = spec(OPS, *unflat([S(a) for a in args], lens))
                return R_(r[k] if outn > 1 else r)
            envm.DEFNS['%s#%d' % (name, k)] = numeric
            prove.UNFOLD['%s#%d' % (name, k)] = unfold


def setup_lemmas():
    for name, fn in LEMMA.items():
        spec, lens, outn = OPAQUE[name]
        for k in range(outn):
            def rule(*ts, fn=fn, lens=lens, k=k):
                r = fn(Callee(name), k, *unflat([S(t) for t in ts], lens))
                return None if r is None else R_(r)
            tm.RULES['%s#%d' % (name, k)] = rule


def contract_for(name):
    import inspect
    spec, lens, outn = OPAQUE[name]

    def c(fn, *a, **k):
        ba = inspect.signature(fn).bind(*a, **k)
        ba.apply_defaults()
        args = list(ba.arguments.values())
        if len(args) < len(lens):
            raise Unsupported('contract of %s: signature changed' % name)
        ts = opaque_app(name, args[:len(lens)])
        if outn == 1:
            return wrap(ts[0])
        return build((outn,), 'f', lambda i: ts[i[0]])
    return c


class Callee(SymOps):
    """vocabulary of a callee contract: preconditions are checked at the call, the result is built from the postcondition"""

    def __init__(self, name): self.name = name

    def fn(self, name, *args):
        ts = opaque_app(name, args)
        return [wrap(t) for t in ts] if len(ts) > 1 else wrap(ts[0])

    def v3(self, a, *idx):
        for i in idx:
            a = a[i]
        return [wrap(tm.toreal(num(T_(a[k])))) for k in range(3)]

    def asarr(self, x): return N.asarr(x)
    def array(self, x): return N.array(SList(x))
    def scalar(self, x): return wrap(tm.toreal(num(T_(x))))
    def decide(self, c): return CTX.decide(tob(T_(c)))

    def len(self, x):
        return lists.pyint(N.asarr(x)._shape[0])

    def dims(self, x): return [lists.pyint(d) for d in N.asarr(x)._shape]

    def _holds(self, cond):
        c = norm.bcanon(CTX.simp(tob(T_(cond))))
        return solve.entails(CTX.facts, c, 2) or CTX.decide(c)

    def require(self, cond):
        if not self._holds(cond):
            raise PreconditionError('precondition of %s' % self.name)

    def rows(self, a, n):
        if not deq(N.asarr(a)._shape[0], dim(n)):
            raise PreconditionError('precondition of %s' % self.name)

    def zeros(self, e):
        """e == 0, as a condition"""
        e = CTX.simp(R_(e))
        return wrap(tm.TRUE) if prove.zero(e, time.time() + 10) else wrap(tm.eq(e, tm.R0))

    def require_all(self, n, f, *more):
        """f holds at all indices below n (and below each of more)"""
        dims = [dim(x) for x in (n,) + more]
        params = [(tm.fresh('rq', 'I'), d) for d in dims if not isinstance(d, int)]

        def one():
            for ix in itertools.product(*[range(d) if isinstance(d, int) else (None,) for d in dims]):
                it_ = iter(params)
                if not self._holds(f(*[S(next(it_)[0]) if i is None else i for i in ix])):
                    raise PreconditionError('precondition of %s' % self.name)
            return wrap(tm.I1)
        generic(params, one)

    def unknown_bool(self):
        """a truth value about which nothing is known"""
        return wrap(tm.fresh('ans', 'B'))

    def some(self, n):
        """an index below n about which nothing else is known"""
        n = CTX.simp(T_(n))
        if n is tm.I1:
            return 0
        i = tm.fresh('e', 'I')
        CTX.assume(tm.le(tm.I0, i))
        CTX.assume(tm.lt(i, n))
        CTX.instantiate(i, flat=True)
        return wrap(i)

    def ensure(self, c):
        """part of the postcondition"""
        CTX.assume(norm.bcanon(CTX.simp(tob(T_(c)))))

    def keep(self, obj, name, val):
        """set an attribute that the class defines as a read-only property"""
        cls = type(obj)
        if isinstance(getattr(cls, name, None), property):
            obj.__dict__.setdefault('_kept', {})[name] = val
            if not hasattr(getattr(cls, name).fget, '_kept'):
                old = getattr(cls, name)

                def get(o, old=old, name=name):
                    k = o.__dict__.get('_kept', {})
                    return k[name] if name in k else old.fget(o)
                get._kept = True
                setattr(cls, name, property(get))
        else:
            setattr(obj, name, val)

    def zero(self, e):
        """syntactically provable e = 0"""
        return norm.is_zero(CTX.simp(R_(e)))

    def build(self, shape, f):
        sh = tuple(dim(d) for d in shape)
        return build(sh, 'f', lambda i: R_(f(*[lists.pyint(x) for x in i])))


class PreconditionError(Exception):
    pass


def callee_for(name):
    import inspect
    spec = CONTRACT[name]

    def c(fn, *a, **k):
        ba = inspect.signature(fn).bind(*a, **k)
        ba.apply_defaults()
        d = CTX.spec_depth
        CTX.spec_depth = 1
        try:
            return spec(Callee(name), *ba.arguments.values())
        finally:
            CTX.spec_depth = d
    return c


# ---------------------------------------------------------------- the harness object
class SymH(SymOps):
    def __init__(self, ob, loader, fix, results, budget):
        self.ob, self.loader, self.fix, self.results, self.budget = ob, loader, fix or {}, results, budget
        self.gen = {}
        self._inputs = []

    # -- inputs
    def _bounds(self, t, lo, hi):
        if lo is not None:
            CTX.assume(tm.le(R_(lo), t))
        if hi is not None:
            CTX.assume(tm.le(t, R_(hi)))

    def real(self, name, lo=None, hi=None, specials=(), wide=None):
        """a real input; lo, hi: usual range; wide: the range assumed, where that is wider"""
        self.gen[name] = envm.gen_real(lo, hi, specials, wide)
        lo, hi = wide or (lo, hi)
        t = tm.var(name, 'R')
        self._bounds(t, lo, hi)
        return S(t)

    def arr(self, name, shape, kind='f', lo=None, hi=None, specials=(), p=0.5, inc=False, wide=None):
        sh = tuple(dim(d) for d in (shape if isinstance(shape, tuple) else (shape,)))
        sort = {'f': 'R', 'i': 'I', 'b': 'B'}[kind]
        if kind == 'f':
            self.gen[name] = envm.gen_inc(lo, hi, inc) if inc else envm.gen_real(lo, hi, specials, wide)
            lo, hi = wide or (lo, hi)
        elif kind == 'i':
            self.gen[name] = envm.gen_int(lo or 0, hi or 3)
        else:
            self.gen[name] = envm.gen_bool(p)
        if (lo is not None or hi is not None) and kind == 'f':
            ps, idx = [], []
            import itertools
            rngs = []
            for d in sh:
                if isinstance(d, int):
                    rngs.append([tm.const(i, 'I') for i in range(d)])
                else:
                    x = tm.fresh('bi', 'I')
                    ps.append((x, d))
                    rngs.append([x])
            for ix in itertools.product(*rngs):
                a = tm.app(name, ix, sort)
                c = tm.and_(tm.le(R_(lo), a) if lo is not None else tm.TRUE, tm.le(a, R_(hi)) if hi is not None else tm.TRUE)
                for x, d in reversed(ps):
                    c = tm.forall(x, d, c)
                CTX.assume(c)
        return self._input(name, Arr(Buf(sh, kind, ('app', name, sort))))

    def _input(self, name, a):
        if isinstance(a, Arr):
            self._inputs.append((name, a, {k: c.state for k, c in a.buf.planes.items()}, a.snap()))
        return a

    def frame(self):
        """the code did not write into the arrays it was given"""
        for name, a, st, b in self._inputs:
            if all(c.state is st.get(k, ()) or not c.state for k, c in a.buf.planes.items()):
                continue
            if not all(deq(x, y) for x, y in zip(a._shape, b._shape)):
                return self._rec('input %s unchanged' % name, prove.Res('unknown', why='shape'), None)
            for ix in self.each(*a._shape):
                ix = ix if isinstance(ix, tuple) else (ix,)
                self.eq('input %s unchanged' % name, a[ix], b[ix])

    def vec(self, name, n=3, **k):
        return self.arr(name, (n,), **k)

    def dim(self, name, lo=1, hi=3):
        self.gen[name] = envm.gen_int(lo, hi)
        if name in self.fix:
            return self.fix[name]
        if self.ob.sizes is None and self.fix is None:
            pass
        t = tm.var(name, 'I')
        CTX.assume(tm.le(tm.const(lo, 'I'), t))
        return S(t)

    def int(self, name, lo, hi):
        """bounded integer input, enumerated"""
        return self.choice(name, list(range(lo, hi + 1)))

    def choice(self, name, options):
        options = list(options)
        self.gen[name] = envm.gen_int(0, len(options) - 1)
        t = tm.var(name, 'I')
        CTX.assume(tm.le(tm.I0, t))
        CTX.assume(tm.lt(t, tm.const(len(options), 'I')))
        for k in range(len(options) - 1):
            if CTX.decide(tm.eq(t, tm.const(k, 'I'))):
                return options[k]
        return options[-1]

    def bool(self, name):
        self.gen[name] = envm.gen_bool()
        return S(tm.var(name, 'B'))

    def assume(self, c):
        t = tob(T_(c))
        t = CTX.simp(t)
        CTX.assume(norm.bcanon(t))
        if solve.check(CTX.facts) == 'unsat':
            raise Infeasible()

    def hint(self, i):
        """use the known facts about all elements at this one"""
        CTX.instantiate(T_(i), flat=True)

    def assume_all(self, n, f):
        self.assume(self.all(n, f))

    def array(self, x):
        return self._input('array', N.array(self.conv(x)))

    def asarr(self, x): return N.asarr(x)

    def conv(self, x):
        if isinstance(x, (list,)):
            return SList([self.conv(y) for y in x])
        if isinstance(x, tuple):
            return tuple(self.conv(y) for y in x)
        if isinstance(x, float):
            return self.num(x)
        if isinstance(x, dict):
            return GDict({k: self.conv(v) for k, v in x.items()})
        return x

    lst = conv

    def grid(self, shape, f):
        """input array given by a formula"""
        sh = tuple(dim(d) for d in shape)
        return self._input('grid', build(sh, 'f', lambda i: R_(f(*[lists.pyint(x) for x in i]))))

    # -- running code
    def mod(self, name):
        return self.loader.load(name)

    def outcome(self, fn):
        try:
            return Out('ok', fn())
        except (Exception, SystemExit) as e:
            return Out('exc', e)

    def each(self, *ns):
        if not ns:
            yield ()
            return
        n = dim(ns[0])
        if isinstance(n, int):
            for i in range(n):
                if len(ns) == 1:
                    yield i
                else:
                    for r in self.each(*ns[1:]):
                        yield (i,) + (r if isinstance(r, tuple) else (r,))
            return
        x = tm.fresh('i', 'I')
        self.gen[x.args[0]] = envm.gen_int(0, 3)
        mk = CTX.mark()
        CTX.assume(tm.le(tm.I0, x))
        CTX.assume(tm.lt(x, n))
        CTX.instantiate(x, flat=True)
        if len(ns) == 1:
            yield S(x)
        else:
            for r in self.each(*ns[1:]):
                yield (S(x),) + (r if isinstance(r, tuple) else (r,))
        CTX.undo_facts(mk)

    def len(self, x):
        if isinstance(x, Arr):
            return lists.pyint(x._shape[0])
        if isinstance(x, SList):
            return lists.pyint(x.length())
        return len(x)

    def at(self, x, *idx):
        """element of a nested list / array"""
        for i in idx:
            x = x[i]
        return x

    def v3(self, a, *idx):
        for i in idx:
            a = a[i]
        return [self.scalar(a[k]) for k in range(3)]

    def scalar(self, x):
        return wrap(tm.toreal(num(T_(x))))

    def table(self, df):
        return df.cols

    def fn(self, name, *args):
        """opaque specification function"""
        ts = opaque_app(name, args)
        return [wrap(t) for t in ts] if len(ts) > 1 else wrap(ts[0])

    def assign(self, obj, name, val):
        setattr(obj, name, val)

    def bare(self, cls):
        return object.__new__(cls)

    def patch(self, mod, name, val):
        """replace a module attribute by a recording stand-in for the rest of this path"""
        self._patched.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def provide(self, name, **values):
        """a module outside the repository, for the rest of this path"""
        from .shims import Mod
        m = self.loader.shims
        m[name] = Mod(name, values)

    # -- obligations
    def _rec(self, name, res, facts):
        d = {'check': name, 'status': res.status, 'how': res.how, 'why': res.why, 'path': len(CTX.explorers[0].trace)}
        if res.env is not None:
            try:
                d['env'] = res.env.dump()
            except Exception:
                pass
        self.results.append(d)

    def eq(self, name, got, want, tol=None):
        if callable(want):
            want = want()
        if isinstance(want, (list, tuple)):
            n = self.len(got) if not isinstance(got, (list, tuple)) else len(got)
            if not isinstance(n, int):
                n = dim(n)
            if not isinstance(n, int) and CTX.entails(tm.eq(n, tm.const(len(want), 'I'))):
                n = len(want)
            if n != len(want):
                return self._rec(name, prove.Res('refuted', 'shape', prove.find_cex(CTX.facts, lambda e: True, self.gen), 'length %s' % (n,)), None)
            for k in range(len(want)):
                self.eq('%s[%d]' % (name, k), got[k], want[k])
            return
        if isinstance(got, Arr) and got.ndim == 0:
            got = wrap(got.read(()))
        g, w = lift(got), lift(want)
        if g is not None and isinstance(want, str):
            w = N.strcode(want)
        if g is None or w is None:
            if isinstance(got, Poison):
                got._no()
            if isinstance(want, Arr) and isinstance(got, Arr):
                return self.eqarr(name, got, want)
            if type(got) is type(want) and isinstance(got, str) and got == want or got is None and want is None:
                return self._rec(name, prove.Res('proved', 'syntactic'), None)
            return self._rec(name, prove.Res('refuted', 'kind', prove.find_cex(CTX.facts, lambda e: True, self.gen), 'got %r' % (type(got),)), None)
        res = prove.prove_eq(CTX.simp(g), CTX.simp(w), self.gen, self.budget)
        self._rec(name, res, None)

    def eqarr(self, name, got, want):
        sh = want.shape
        self.shape(name, got, sh)
        for idx in self.each(*sh):
            idx = idx if isinstance(idx, tuple) else (idx,)
            self.eq(name, got[idx], want[idx])

    def true(self, name, cond, soft=False):
        """soft: nonlinear reasoning about the failing side; not being shown is a limit of the prover, not a verdict"""
        if callable(cond):
            cond = cond()
        t = tob(T_(cond))
        r = prove.prove_true(CTX.simp(t), self.gen, self.budget)
        if soft and r.status == 'unknown' and r.why == 'not shown':
            r.why = 'nonlinear bound not decided'
        self._rec(name, r, None)

    def shape(self, name, got, shape):
        if not isinstance(got, Arr):
            try:
                got = N.asarr(got)
            except TypeError:
                return self._rec(name + '.shape', prove.Res('refuted', 'kind', prove.find_cex(CTX.facts, lambda e: True, self.gen)), None)
        ok = got.ndim == len(shape)
        if ok:
            for a, b in zip(got._shape, shape):
                res = prove.prove_eq(it(a), it(dim(b)), self.gen, self.budget)
                self._rec(name + '.shape', res, None)
        else:
            self._rec(name + '.shape', prove.Res('refuted', 'shape', prove.find_cex(CTX.facts, lambda e: True, self.gen), 'ndim %d' % got.ndim), None)

    def fail(self, name, why=''):
        self._rec(name, prove.Res('refuted', 'reached', prove.find_cex(CTX.facts, lambda e: True, self.gen), why), None)


def _nonzero_known(facts, cond):
    if cond.op != 'not' or cond.args[0].op != 'eq' or not any(x.op in ('maxagg', 'sum') for x in _aggs(cond)):
        return False
    old = list(CTX.facts)
    CTX.facts[:] = facts
    try:
        return prove.known_nonzero(cond.args[0].args[0], time.time() + 15)
    finally:
        CTX.facts[:] = old


def _aggs(t):
    return tm.atoms_of(t, lambda x: x.op in ('maxagg', 'sum'))


def run_ob(ob, repo, fix=None, budget=None, tlimit=None):
    """explore all paths of one obligation -> result dict"""
    t0 = time.time()
    CTX.reset()
    CTX.spec_depth = 1
    N.SOLVES.clear()
    loader = Loader(repo)
    results = []
    out = {'ob': ob.name, 'fix': fix, 'checks': results, 'paths': 0, 'status': None, 'why': ''}
    CTX.contracts = {q: contract_for(n) if n in OPAQUE else callee_for(n) for q, n in ob.contracts}
    ex = Explorer()
    z0 = dict(solve.STATS)
    live = [0]
    info = {}

    def once():
        if tlimit and time.time() - t0 > tlimit:
            raise Unsupported('time limit')
        h = SymH(ob, loader, fix, results, budget or ob.budget)
        h._patched = []
        nd = len(CTX.defs)
        try:
            ob.fn(h)
            h.frame()
            live[0] += 1
            if not info.get('reach'):
                env = prove.find_cex(CTX.facts, lambda e: True, h.gen, 4)
                info['reach'] = info.get('reach') or env is not None
        except (Infeasible, Unsupported):
            raise
        except (Exception, SystemExit) as e:
            if isinstance(e, RecursionError):
                raise Unsupported('recursion')
            if isinstance(e, Skip):
                return
            env = prove.find_cex(CTX.facts, lambda e: True, h.gen, 20)
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb if 'pyvc' not in f.filename][-3:]
            internal = tb and 'pyvc' in tb[-1].filename and not isinstance(e, (IndexError, ValueError, TypeError, ZeroDivisionError, KeyError, AssertionError, SystemExit))
            if internal:
                raise Unsupported('engine: %s: %s at %s' % (type(e).__name__, e, ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]))
            r = prove.Res('refuted' if env is not None else 'unknown', 'exception', env, '%s: %s (%s)' % (type(e).__name__, str(e)[:200], ' '.join(where)))
            h._rec('no exception', r, None)
        finally:
            for m, n, v in reversed(h._patched):
                setattr(m, n, v)
    try:
        paths = ex.run(once)
        out['paths'] = len(paths)
        for p in paths:
            if p[1][0] == 'exc':
                out['why'] = 'engine: %r' % (p[1][1],)
                out['status'] = 'unsupported'
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['why'] = str(e)
        if os.environ.get('PYVC_TB'):
            traceback.print_exc()
    except RecursionError:
        out['status'] = 'unsupported'
        out['why'] = 'recursion depth'
    except Infeasible:
        pass
    if out['status'] is None:
        if any(c['status'] == 'refuted' for c in results):
            out['status'] = 'refuted'
        elif any(c['status'] == 'unknown' for c in results):
            out['status'] = 'unknown'
        elif not results:
            out['status'] = 'vacuous'
        else:
            out['status'] = 'proved'
    elif any(c['status'] == 'refuted' for c in results):
        out['status'] = 'refuted'
    # definedness obligations (deduplicated)
    seen, dd = set(), []
    for what, cond, facts in CTX.defs:
        key = (what, cond)
        if key in seen:
            continue
        seen.add(key)
        dd.append((what, cond, facts))
    nd = {'total': len(dd), 'proved': 0, 'open': []}
    for what, cond, facts in dd[:60]:
        if time.time() - t0 > (tlimit or 120):
            break
        if sign.holds(facts, cond, time.time() + 3, False) or solve.entails(list(facts), cond, 0.1) or sign.holds(facts, cond, time.time() + 6) or _nonzero_known(facts, cond):
            nd['proved'] += 1
        elif len(nd['open']) < 6:
            nd['open'].append('%s: %s' % (what, tm.show(cond, 4)[:160]))
    out['definedness'] = nd
    out['reach'] = bool(info.get('reach'))
    out['live_paths'] = live[0]
    out['executed'] = sorted(CTX.executed)
    out['contracts_used'] = dict(CTX.calls)
    out['loops'] = [list(x) for x in CTX.loop_obls]
    out['z3'] = {k: solve.STATS[k] - z0.get(k, 0) for k in solve.STATS}
    out['wall'] = round(time.time() - t0, 3)
    return out
