"""Interval and sign reasoning for definedness obligations (denominators, domains of log, asin, real powers).

Everything is exact: bounds are rationals with a strictness flag, derived from the known facts and the structure of the term.
"""
from fractions import Fraction
from math import isqrt
from . import terms as tm
from . import norm, solve
import time

F0, F1 = Fraction(0), Fraction(1)


class Iv:
    """lo (<|<=) x (<|<=) hi; None is infinite; nz: known nonzero"""
    __slots__ = ('lo', 'hi', 'ls', 'hs', 'nz')

    def __init__(self, lo=None, hi=None, ls=False, hs=False, nz=False):
        self.lo, self.hi, self.ls, self.hs, self.nz = lo, hi, ls, hs, nz
        if self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.ls)):
            self.nz = True
        if self.hi is not None and (self.hi < 0 or (self.hi == 0 and self.hs)):
            self.nz = True
        if self.nz:
            if self.lo == 0:
                self.ls = True
            if self.hi == 0:
                self.hs = True

    def __repr__(self):
        return '%s%s,%s%s%s' % ('(' if self.ls else '[', self.lo, self.hi, ')' if self.hs else ']', '!' if self.nz else '')

    def meet(self, o):
        lo, ls = self.lo, self.ls
        if o.lo is not None and (lo is None or o.lo > lo or (o.lo == lo and o.ls)):
            lo, ls = o.lo, o.ls
        hi, hs = self.hi, self.hs
        if o.hi is not None and (hi is None or o.hi < hi or (o.hi == hi and o.hs)):
            hi, hs = o.hi, o.hs
        return Iv(lo, hi, ls, hs, self.nz or o.nz)

    def join(self, o):
        lo = ls = hi = hs = None
        if self.lo is not None and o.lo is not None:
            lo = min(self.lo, o.lo)
            ls = all(x.ls for x in (self, o) if x.lo == lo)
        if self.hi is not None and o.hi is not None:
            hi = max(self.hi, o.hi)
            hs = all(x.hs for x in (self, o) if x.hi == hi)
        return Iv(lo, hi, bool(ls), bool(hs), self.nz and o.nz)

    def add(self, o):
        return Iv(None if self.lo is None or o.lo is None else self.lo + o.lo,
                  None if self.hi is None or o.hi is None else self.hi + o.hi,
                  self.ls or o.ls, self.hs or o.hs)

    def scale(self, k):
        if k == 0:
            return Iv(F0, F0)
        a = None if self.lo is None else k * self.lo
        b = None if self.hi is None else k * self.hi
        return Iv(a, b, self.ls, self.hs, self.nz) if k > 0 else Iv(b, a, self.hs, self.ls, self.nz)

    @property
    def pos(self): return self.lo is not None and (self.lo > 0 or (self.lo == 0 and self.ls))
    @property
    def neg(self): return self.hi is not None and (self.hi < 0 or (self.hi == 0 and self.hs))
    @property
    def ge0(self): return self.lo is not None and self.lo >= 0
    @property
    def le0(self): return self.hi is not None and self.hi <= 0

    def mul(self, o):
        nz = self.nz and o.nz
        if self.le0 and not self.ge0:
            r = self.scale(-1).mul(o)
            return r.scale(-1)
        if o.le0 and not o.ge0:
            return self.mul(o.scale(-1)).scale(-1)
        if self.ge0 and o.ge0:
            hi = None if self.hi is None or o.hi is None else self.hi * o.hi
            return Iv(self.lo * o.lo, hi, nz and self.lo * o.lo == 0 or ((self.ls or o.ls) and self.lo * o.lo > 0 and self._strict(o)), False, nz)
        if self.ge0 and self.hi is not None or o.ge0 and o.hi is not None:
            p, q = (self, o) if self.ge0 and self.hi is not None else (o, self)
            lo = None if q.lo is None else min(q.lo * p.hi, q.lo * p.lo)
            hi = None if q.hi is None else max(q.hi * p.hi, q.hi * p.lo)
            return Iv(lo, hi, False, False, nz)
        if None not in (self.lo, self.hi, o.lo, o.hi):
            c = [x * y for x in (self.lo, self.hi) for y in (o.lo, o.hi)]
            return Iv(min(c), max(c), False, False, nz)
        return Iv(nz=nz)

    def _strict(self, o):
        return self.ls and o.lo > 0 or o.ls and self.lo > 0

    def inv(self):
        if self.pos:
            lo = F0 if self.hi is None else 1 / self.hi
            hi = None if self.lo == 0 else 1 / self.lo
            return Iv(lo, hi, self.hi is None or self.hs, self.ls, True)
        if self.neg:
            return self.scale(-1).inv().scale(-1)
        return Iv(nz=True)       # only used where the base is known to be nonzero (its own obligation)

    def pow(self, n):
        if n < 0:
            return self.pow(-n).inv()
        if n == 1:
            return self
        if n % 2 == 0:
            if self.le0 and not self.ge0:
                return self.scale(-1).pow(n)
            if self.ge0:
                return Iv(self.lo ** n, None if self.hi is None else self.hi ** n, self.ls, self.hs, self.nz)
            m = None
            if self.lo is not None and self.hi is not None:
                m = max(abs(self.lo), abs(self.hi)) ** n
            return Iv(F0, m, False, False, self.nz)
        return Iv(None if self.lo is None else self.lo ** n, None if self.hi is None else self.hi ** n, self.ls, self.hs, self.nz)


def _root(q, up):
    s = 10 ** 12
    n = isqrt(q.numerator * s * s // q.denominator)
    r = Fraction(n, s)
    return r if not up or r * r == q else r + Fraction(1, s)


class Ctx:
    def __init__(self, facts, deadline):
        self.facts = []
        self.quant = []
        self.lin = {}      # direction (items of a linear form scaled to a leading 1) -> Iv
        self.by_atom = {}  # atom -> directions with other atoms
        self.ors = []
        self.nzs = set()
        self.memo = {}
        self.deadline = deadline
        self.z3 = True
        self.depth = 0
        self.inst = set()
        for f in facts:
            self.add(f)

    def child(self, *facts):
        c = Ctx((), self.deadline)
        c.facts, c.quant, c.lin = list(self.facts), list(self.quant), dict(self.lin)
        c.by_atom = {k: list(v) for k, v in self.by_atom.items()}
        c.ors, c.nzs, c.inst, c.depth = list(self.ors), set(self.nzs), set(self.inst), self.depth
        c.z3 = self.z3
        for f in facts:
            c.add(f)
        return c

    def add(self, f, top=True):
        op = f.op
        if op == 'and':
            for x in f.args:
                self.add(x)
            return
        if top:
            self.facts.append(f)
        self.memo.clear()
        if op == 'forall':
            self.quant.append(f)
        elif op in ('le', 'lt', 'eq'):
            e = f.args[0]
            self._lin(op, e)
            if e.sort == 'R':
                try:
                    x = norm.to_term(norm.expand(e))
                    if x is not e:
                        self._lin(op, x)
                except norm.TooBig:
                    pass
        elif op == 'not' and f.args[0].op == 'eq':
            self.nzs.add(f.args[0].args[0])
            d = self._dir(f.args[0].args[0])
            if d and d[1] == 0:
                self.lin[d[0]] = self.lin.get(d[0], Iv()).meet(Iv(nz=True))
        elif op == 'or':
            self.ors.append(f)

    def _dir(self, e):
        """e = k*(direction) + c -> (direction, c, k)"""
        if e.op == 'c':
            return None
        c, its = e.args if e.op == 'add' else (F0, ((e, F1),))
        if len(its) == 1 and its[0][0].op == 'toreal':
            c2, it2 = tm._lin(its[0][0].args[0])
            return self._dir2(c + its[0][1] * c2, [(x, k * its[0][1]) for x, k in it2])
        return self._dir2(c, its)

    def _dir2(self, c, its):
        if not its:
            return None
        k = its[0][1]
        return tuple((x, v / k) for x, v in its), c, k

    def _lin(self, op, e):
        d = self._dir(e)
        if d is None:
            return
        d, c, k = d
        b = -c / k
        if op == 'eq':
            iv = Iv(b, b)
        elif k > 0:
            iv = Iv(None, b, False, op == 'lt')
        else:
            iv = Iv(b, None, op == 'lt', False)
        if d[0][0].sort == 'I' and e.sort == 'I' and len(d) == 1 and op == 'lt':      # integers: x < b is x <= b - 1
            if b.denominator == 1:
                iv = Iv(None, b - 1) if k > 0 else Iv(b + 1, None)
        new = self.lin.get(d, Iv()).meet(iv)
        self.lin[d] = new
        if len(d) > 1:
            for x, _ in d:
                l = self.by_atom.setdefault(x, [])
                if d not in l:
                    l.append(d)


def _unify_apps(body, x, out):
    if body.op == 'app':
        for i, a in enumerate(body.args[1:]):
            if a is x:
                out.add((body.args[0], i + 1, 0))
            elif a.op == 'add' and len(a.args[1]) == 1 and a.args[1][0] == (x, F1):
                out.add((body.args[0], i + 1, a.args[0]))
    for s in tm.subterms(body):
        if x in s.fv:
            _unify_apps(s, x, out)


def _collect_apps(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'app':
        out.append(t)
    for s in tm.subterms(t):
        _collect_apps(s, out, seen)


def instantiate(cx, t):
    """facts about all elements, at the elements in t"""
    apps = []
    _collect_apps(t, apps, set())
    for rnd in range(3):
        new = []
        for q in list(cx.quant):
            x, n, body = q.args
            pats = set()
            _unify_apps(body, x, pats)
            for a in apps:
                for name, pos, off in pats:
                    if a.args[0] == name and pos < len(a.args):
                        i = tm.sub(a.args[pos], tm.const(off, 'I'))
                        if i.sort != 'I' or (q, i) in cx.inst:
                            continue
                        if any(v.args[0].startswith('_b') and v.op == 'v' for v in i.fv) and not _known(cx, i):
                            continue
                        if _inrange(cx, i, n):
                            cx.inst.add((q, i))
                            b = tm.subst(body, {x: i})
                            new.append(b)
        if not new:
            break
        for b in new:
            cx.add(b)


def _known(cx, i):
    return True


def _inrange(cx, i, n):
    g = tm.and_(tm.le(tm.I0, i), tm.lt(i, n))
    fs = [f for f in cx.facts if solve.int_only(f)]
    return g is tm.TRUE or solve.entails(fs, g, 0)


def bound(t, cx):
    r = cx.memo.get(t)
    if r is None:
        cx.memo[t] = Iv()            # cycles: nothing known
        r = _bound(t, cx)
        cx.memo[t] = r
    return r


def _sum_iv(c, its, cx):
    r = Iv(c, c)
    for x, k in its:
        r = r.add(bound(x, cx).scale(k))
        if r.lo is None and r.hi is None:
            break
    return r


def _bound(t, cx):
    if time.time() > cx.deadline:
        return Iv()
    op, a = t.op, t.args
    if op == 'c':
        return Iv(a[0], a[0])
    r = Iv()
    d = cx._dir(t)
    if d is not None:
        k = cx.lin.get(d[0])
        if k is not None:
            r = k.scale(d[2]).add(Iv(d[1], d[1]))
            if d[1] == 0 and k.nz:
                r = Iv(r.lo, r.hi, r.ls, r.hs, True)
    if t in cx.nzs:
        r = r.meet(Iv(nz=True))
    r = r.meet(_structure(t, cx))
    if op != 'add' and t in cx.by_atom and cx.depth < 3:
        # an inequality between this and other atoms
        cx.depth += 1
        for dr in cx.by_atom[t]:
            iv = cx.lin[dr]
            k = dict(dr)[t]
            rest = _sum_iv(F0, [(x, c) for x, c in dr if x is not t], cx)
            r = r.meet(iv.add(rest.scale(-1)).scale(1 / k))
        cx.depth -= 1
    return r


PI_IV = Iv(Fraction(31415926, 10 ** 7), Fraction(31415927, 10 ** 7), True, True)


def _structure(t, cx):
    op, a = t.op, t.args
    if op == 'v':
        return PI_IV if t is tm.PI else Iv()
    if op == 'add':
        r = _sum_iv(a[0], a[1], cx)
        if not r.nz and r.lo is None and r.hi is None and t.size < 300 and t.sort == 'R':
            try:
                x = norm.to_term(norm.expand(t))
                if x is not t:
                    r = r.meet(bound(x, cx))
            except norm.TooBig:
                pass
        return r
    if op == 'mul':
        r = Iv(F1, F1)
        for b, e in a:
            r = r.mul(bound(b, cx).pow(e))
        return r
    if op == 'toreal':
        return bound(a[0], cx)
    if op == 'sqrt':
        b = bound(a[0], cx)
        lo = _root(b.lo, False) if b.lo is not None and b.lo > 0 else F0
        hi = _root(b.hi, True) if b.hi is not None and b.hi >= 0 else None
        return Iv(lo, hi, False, False, b.nz and b.ge0)
    if op == 'abs':
        b = bound(a[0], cx)
        if b.ge0:
            return b
        if b.le0:
            return b.scale(-1)
        return Iv(F0, None if b.lo is None or b.hi is None else max(-b.lo, b.hi), False, False, b.nz)
    if op in ('cos', 'sin'):
        x = bound(a[0], cx)
        if op == 'cos' and x.lo is not None and x.hi is not None:        # cos x = sin(x + pi/2)
            x = Iv(x.lo + PI_IV.lo / 2, x.hi + PI_IV.hi / 2, True, True)
        elif op == 'cos':
            x = Iv()
        if x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi <= PI_IV.lo:
            return Iv(F0, F1, x.pos)
        return Iv(-F1, F1)
    if op == 'exp':
        return Iv(F0, None, True)
    if op == 'log':
        b = bound(a[0], cx)
        r = Iv()
        if b.lo is not None and b.lo >= 1:
            r = r.meet(Iv(F0, None, b.lo > 1 or b.ls))
        if b.hi is not None and b.hi <= 1 and b.pos:
            r = r.meet(Iv(None, F0, False, b.hi < 1 or b.hs))
        if not r.nz and b.pos and bound(tm.sub(a[0], tm.R1), cx).nz:
            r = r.meet(Iv(nz=True))
        if not r.nz:
            # log(x/y): sign of x - y
            for y, e in (a[0].args if a[0].op == 'mul' else ()):
                if e == -1 and bound(y, cx).pos:
                    w = bound(tm.sub(tm.mul(a[0], y), y), cx)
                    if w.pos:
                        r = r.meet(Iv(F0, None, True))
                    elif w.neg:
                        r = r.meet(Iv(None, F0, False, True))
                    elif w.nz:
                        r = r.meet(Iv(nz=True))
        return r
    if op == 'rpow':
        b = bound(a[0], cx)
        return Iv(F0, None, b.pos, False) if b.ge0 else Iv()
    if op == 'asin':
        h = Fraction(15708, 10000)
        return Iv(-h, h)
    if op == 'atan':
        h = Fraction(15708, 10000)
        return Iv(-h, h, True, True)
    if op == 'acos':
        return Iv(F0, Fraction(31416, 10000))
    if op == 'ite':
        cond = CTX_simp(a[0], cx)
        if cond is tm.TRUE:
            return bound(a[1], cx)
        if cond is tm.FALSE:
            return bound(a[2], cx)
        if cx.depth > 4:
            return Iv()
        out = []
        for c, b in ((a[0], a[1]), (tm.not_(a[0]), a[2])):
            k = cx.child(c)
            k.depth += 1
            out.append(bound(b, k))
        return out[0].join(out[1])
    if op == 'sum':
        x, n, body = a
        k = cx.child(tm.le(tm.I0, x), tm.lt(x, n))
        instantiate(k, body)
        b = bound(body, k)
        N = bound(n, cx)
        some = N.lo is not None and N.lo >= 1
        lo = F0 if b.ge0 else None
        hi = F0 if b.le0 else None
        if some and b.pos:
            return Iv(b.lo, hi, b.ls, False, True)
        if some and b.neg:
            return Iv(lo, b.hi, False, b.hs, True)
        return Iv(lo, hi)
    if op == 'maxagg':
        x, n, body = a
        k = cx.child(tm.le(tm.I0, x), tm.lt(x, n))
        instantiate(k, body)
        b = bound(body, k)
        return b
    return Iv()


def CTX_simp(c, cx):
    return c


def holds(facts, goal, deadline=None, z3=True):
    """True if the goal follows by interval reasoning (or after clearing denominators of known sign)"""
    deadline = deadline or time.time() + 20
    cx = Ctx(facts, deadline)
    cx.z3 = z3
    instantiate(cx, goal)
    return _holds(cx, goal, 0)


def _holds(cx, goal, depth=0):
    if goal is tm.TRUE or goal in cx.facts:
        return True
    op = goal.op
    if op == 'and':
        return all(_holds(cx, g, depth) for g in goal.args)
    if op == 'or':
        return any(_holds(cx, g, depth) for g in goal.args)
    if op == 'not' and goal.args[0].op == 'eq':
        e = goal.args[0].args[0]
        if bound(e, cx).nz:
            return True
        f = expanded(e, cx)
        if f is not None and f.nz:
            return True
        f = factor_bound(e, cx)
        if f is not None and f.nz:
            return True
        return split(cx, goal, depth)
    if op in ('le', 'lt'):
        e = goal.args[0]
        b = bound(e, cx)
        if (b.neg if op == 'lt' else b.le0):
            return True
        f = expanded(e, cx)
        if f is not None and (f.neg if op == 'lt' else f.le0):
            return True
        f = factor_bound(e, cx)
        if f is not None and (f.neg if op == 'lt' else f.le0):
            return True
        if op == 'le' and ratio_unit(e, cx):
            return True
        return split(cx, goal, depth)
    return False


def expanded(e, cx):
    if e.sort != 'R':
        return None
    try:
        x = norm.to_term(norm.expand(e))
    except norm.TooBig:
        return None
    return bound(x, cx) if x is not e else None


def psd(p, cx, depth=0):
    """the polynomial is nonnegative everywhere the facts hold"""
    if not p:
        return True
    if any(k < 0 for m in p for _, k in m) or len(p) > 400 or time.time() > cx.deadline:
        return False
    t = norm.to_term(p)
    if bound(t, cx).ge0:
        return True
    if depth > 7:
        return False
    deg = {}
    for m in p:
        for a, k in m:
            deg[a] = max(deg.get(a, 0), k)
    for x, n in sorted(deg.items(), key=lambda v: v[0].id):
        k = min(dict(m).get(x, 0) for m in p)
        if k and not bound(x, cx).ge0:
            k -= k % 2
        if k:                                    # a common factor of known sign
            return psd(norm.pmul(p, {((x, -k),): F1}), cx, depth)
    for x, n in sorted(deg.items(), key=lambda v: (not any(len(m) > 1 and dict(m).get(v[0]) == 1 for m in p), v[0].id)):
        if n != 2:
            continue
        co = [{}, {}, {}]
        for m, c in p.items():
            co[dict(m).get(x, 0)][tuple(f for f in m if f[0] is not x)] = c
        c0, c1, c2 = co
        if len(c2) > 40 or len(c1) > 60 or len(c0) > 120:
            continue
        if not psd(c2, cx, depth + 1):
            continue
        if not c1:
            if psd(c0, cx, depth + 1):
                return True
            continue
        try:
            disc = norm.padd(norm.pmul(norm.pmul(c2, c0), {(): Fraction(4)}), norm.pmul(c1, c1), -F1)
        except norm.TooBig:
            continue
        disc = _zero_or(disc)
        if disc:
            k = abs(next(iter(disc.values())))
            disc = {m: c / k for m, c in disc.items()}
        if psd(disc, cx, depth + 1) and psd(c0, cx, depth + 1):
            return True
    return False


def _zero_or(p):
    t = norm.to_term(p)
    return {} if norm.is_zero(t) else norm.expand(t)


def nonneg(q, cx):
    """q >= 0 for a term q"""
    if bound(q, cx).ge0:
        return True
    try:
        p = norm.expand(q)
    except norm.TooBig:
        return False
    return psd(p, cx) or psd(norm.expand(norm.trig_rewrite(q)) if norm.has_trig(q) else p, cx)


def ratio_unit(e, cx):
    """e = A/sqrt(Q) - 1 <= 0  because  Q - A^2 >= 0 (Q positive)"""
    try:
        p = norm.expand(e)
    except norm.TooBig:
        return False
    c = p.get((), F0)
    if c >= 0:
        return False
    a = {m: k / -c for m, k in p.items() if m != ()}
    if not a:
        return False
    A = norm.to_term(a)
    # A <= 1  if  A^2 <= 1
    try:
        sq = norm.expand(tm.sub(tm.R1, tm.mul(A, A)))
    except norm.TooBig:
        return False
    r = cleared(sq, cx)
    return r is not None and r[1] > 0 and nonneg(r[0], cx)


def cleared(p, cx):
    """(q, s): q has no denominators and q = p * (something nonzero of sign s; 0 if the sign is not known)

    Denominators are nonzero by their own obligations."""
    got = []
    try:
        p = norm.clear_den(p, got)
    except norm.TooBig:
        return None
    ds = {}
    for m in p:
        for a, k in m:
            if k < 0:
                ds[a] = max(ds.get(a, 0), -k)
    f = ()
    for a, k in ds.items():
        f = norm.mono_mul(f, ((a, k),))
        got.append((a, k))
    p = {norm.mono_mul(m, f): c for m, c in p.items()}
    for i, (a, k) in enumerate(got):        # no more of a denominator than needed
        if a.op == 'add':
            d = norm.expand(a)
            while k > 0 and len(p) < 200 and len(d) < 60:
                q = norm.pdiv_exact(p, d)
                if q is None:
                    break
                p, k = q, k - 1
            got[i] = a, k
    s = 1
    for a, k in got:
        if k % 2:
            b = bound(a, cx)
            if b.neg:
                s = -s
            elif not (b.pos or nonneg(a, cx)):
                s = 0
    return norm.to_term(p), s


def unrooted(p, cx):
    """bound of p divided by a root that divides it"""
    rs = {a for m in p for a, k in m if a.op == 'sqrt'}
    for r in rs:
        try:
            d = norm.expand(r.args[0])
            if len(p) > 200 or len(d) > 60:
                continue
            q = norm.pdiv_exact(norm.pmul(p, {((r, 1),): F1}), d)
        except norm.TooBig:
            continue
        if q is not None:
            b = bound(norm.to_term(q), cx)          # p = q * sqrt
            if b.nz and bound(r, cx).pos:
                return Iv(F0 if b.pos else None, F0 if b.neg else None, b.pos, b.neg, True)
    return Iv()


def factor_bound(e, cx):
    """bound of e with its denominators of known sign cleared (sign only)"""
    if e.size > 400 or e.sort != 'R':
        return None
    try:
        p = norm.expand(e)
    except norm.TooBig:
        return None
    r = cleared(p, cx)
    if r is None:
        return None
    q, s = r
    if s == 0:
        return Iv(nz=bound(q, cx).nz)
    instantiate(cx, q)
    b = bound(q, cx).scale(s)
    if not b.nz:
        b = b.meet(unrooted(norm.expand(q), cx).scale(s))
    if not b.nz and cx.z3:
        ng = tm.lt(tm.R0, q), tm.lt(q, tm.R0)
        fs = list(cx.facts)
        for g, iv in zip(ng, (Iv(F0, None, True), Iv(None, F0, False, True))):
            if solve.entails(fs, g, 0.3):
                return b.meet(iv.scale(s))
        for g, iv in ((tm.le(tm.R0, q), Iv(F0, None)), (tm.le(q, tm.R0), Iv(None, F0))):
            if solve.entails(fs, g, 0.3):
                return b.meet(iv.scale(s))
    return b


def split(cx, goal, depth):
    """case distinction over a known disjunction"""
    if depth >= 2:
        return False
    for o in cx.ors[:6]:
        if not (o.fv & goal.fv) or len(o.args) > 4:
            continue
        ok = True
        for c in o.args:
            k = cx.child(c)
            k.ors = [x for x in k.ors if x is not o]
            instantiate(k, goal)
            if not _holds(k, goal, depth + 1):
                ok = False
                break
        if ok:
            return True
    return False
