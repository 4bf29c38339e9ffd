"""Hash-consed terms: reals, ints and booleans.

Reals are mathematical reals.  A term is canonical only one level deep
(linear combinations of power products); full equality is decided in norm.py.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

F0, F1 = Fraction(0), Fraction(1)


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'lvl', 'fv', 'nn', 'nz', 'exp_cache', 'size')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    _count[0] += 1
    t.id = _count[0]
    t.nn = None
    t.nz = None
    t.exp_cache = None
    lvl = 0
    fv = frozenset()
    size = 1
    for a in subterms(t):
        if a.lvl > lvl:
            lvl = a.lvl
        if a.fv:
            fv = fv | a.fv
        size += a.size
    if op == 'v':
        fv = frozenset((t,))
        if args[0].startswith('_b'):
            lvl = int(args[0][2:])
    elif op in ('sum', 'forall', 'exists', 'maxagg'):
        b = args[0]
        fv = fv - frozenset((b,))
        lvl = max(lvl, b.lvl)
    t.lvl, t.fv, t.size = lvl, fv, min(size, 10**9)
    _table[key] = t
    return t


# T uses identity hashing; args tuples hash through it
def subterms(t):
    op = t.op
    if op == 'c' or op == 'v' or op == 'b':
        return ()
    if op == 'add':
        return tuple(x for x, _ in t.args[1])
    if op == 'mul':
        return tuple(x for x, _ in t.args)
    if op == 'app':
        return t.args[1:]
    if op in ('sum', 'forall', 'exists', 'maxagg'):
        return t.args[1:]
    return t.args


def const(v, sort='R'):
    return _mk('c', (Fraction(v),), sort)


TRUE = _mk('b', (True,), 'B')
FALSE = _mk('b', (False,), 'B')
R0, R1 = const(0), const(1)
I0, I1 = const(0, 'I'), const(1, 'I')
PI = None


def var(name, sort='R'):
    return _mk('v', (name,), sort)


PI = var('@pi', 'R')


RULES = {}   # rewrite rules for specification functions (lemmas): name -> fn(args) -> term or None
_ruled = {}


def app(name, args, sort='R'):
    r = RULES.get(name)
    if r is not None:
        key = (name, tuple(args))
        if key not in _ruled:
            _ruled[key] = None
            _ruled[key] = r(*args)
        if _ruled[key] is not None:
            return _ruled[key]
    return _mk('app', (name,) + tuple(args), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def is_const(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- add
def _lin(t):
    """term -> (const, {atom: coef})"""
    if t.op == 'c':
        return t.args[0], ()
    if t.op == 'add':
        return t.args
    return F0, ((t, F1),)


def from_lin(c, d, sort):
    items = tuple(sorted(((x, k) for x, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return const(c, sort)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk('add', (Fraction(c), items), sort)


def add(*ts):
    sort = 'I'
    for t in ts:
        if t.sort == 'R':
            sort = 'R'
    c = F0
    d = {}
    for t in ts:
        if sort == 'R' and t.sort == 'I':
            t = toreal(t)
        c0, its = _lin(t)
        c += c0
        for x, k in its:
            d[x] = d.get(x, F0) + k
    return from_lin(c, d, sort)


def scale(k, t):
    k = Fraction(k)
    if k == 1:
        return t
    c0, its = _lin(t)
    return from_lin(c0 * k, {x: kk * k for x, kk in its}, t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def lead(t):
    """leading coefficient of the linear form"""
    c, its = _lin(t)
    if its:
        return its[0][1]
    return c


# ---------------------------------------------------------------- mul
def _prod(t):
    """term (not const) -> (coef, {base: exp})"""
    if t.op == 'c':
        return t.args[0], ()
    if t.op == 'mul':
        return F1, t.args
    if t.op == 'add':
        c, its = t.args
        if c == 0 and len(its) == 1:
            x, k = its[0]
            k2, p = _prod(x)
            return k * k2, p
        k = its[0][1]
        if k == 1:
            return F1, ((t, 1),)
        return k, ((scale(1 / k, t), 1),)
    return F1, ((t, 1),)


def from_prod(k, d, sort):
    """d: {base: exp}"""
    if k == 0:
        return const(0, sort)
    extra = []
    out = {}
    for b, e in d.items():
        if e == 0:
            continue
        if b.op == 'sqrt' and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            extra.append(power(b.args[0], q))
            if r:
                out[b] = out.get(b, 0) + 1
            continue
        if b.op == 'abs' and (e >= 2 or e <= -2):
            q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
            extra.append(power(b.args[0], 2 * q))
            if r:
                out[b] = out.get(b, 0) + r
            continue
        out[b] = out.get(b, 0) + e
    items = tuple(sorted(((b, e) for b, e in out.items() if e != 0), key=lambda p: p[0].id))
    if not items:
        t = const(1, sort)
    elif len(items) == 1 and items[0][1] == 1:
        t = items[0][0]
    else:
        t = _mk('mul', items, sort)
    t = scale(k, t)
    for x in extra:
        t = mul(t, x)
    return t


def mul(*ts):
    sort = 'I'
    for t in ts:
        if t.sort == 'R':
            sort = 'R'
    if sort == 'I':
        r = ts[0]
        for t in ts[1:]:
            r = _imul(r, t)
        return r
    k = F1
    d = {}
    for t in ts:
        if t.sort == 'I':
            t = toreal(t)
        if t.op == 'c':
            k *= t.args[0]
            continue
        k2, p = _prod(t)
        k *= k2
        for b, e in p:
            d[b] = d.get(b, 0) + e
    return from_prod(k, d, 'R')


def _imul(a, b):
    ca, ia = _lin(a)
    cb, ib = _lin(b)
    c = ca * cb
    d = {}
    for x, k in ia:
        if cb:
            d[x] = d.get(x, F0) + k * cb
        for y, l in ib:
            p = {}
            for bb, e in (x.args if x.op == 'mul' else ((x, 1),)):
                p[bb] = p.get(bb, 0) + e
            for bb, e in (y.args if y.op == 'mul' else ((y, 1),)):
                p[bb] = p.get(bb, 0) + e
            items = tuple(sorted(p.items(), key=lambda q: q[0].id))
            m = items[0][0] if len(items) == 1 and items[0][1] == 1 else _mk('mul', items, 'I')
            d[m] = d.get(m, F0) + k * l
    if ca:
        for y, l in ib:
            d[y] = d.get(y, F0) + l * ca
    return from_lin(c, d, 'I')


def power(t, n):
    if n == 0:
        return const(1, t.sort)
    if n == 1:
        return t
    if t.sort == 'I':
        if n < 0:
            return power(toreal(t), n)
        r = t
        for _ in range(n - 1):
            r = mul(r, t)
        return r
    if t.op == 'c':
        if t.args[0] == 0:
            if n > 0:
                return t
            return app('@undef_div', (t,))
        return const(t.args[0] ** n)
    k, p = _prod(t)
    return from_prod(k ** n, {b: e * n for b, e in p}, 'R')


def inv(t):
    return power(toreal(t), -1)


def div(a, b):
    return mul(toreal(a), inv(b))


def toreal(t):
    if t.sort == 'R':
        return t
    if t.op == 'c':
        return const(t.args[0], 'R')
    if t.op == 'add':
        c, its = t.args
        d = {}
        for x, k in its:
            y = toreal(x)
            d[y] = d.get(y, F0) + k
        return from_lin(c, d, 'R')
    if t.op == 'mul':
        return from_prod(F1, {toreal(b): e for b, e in t.args}, 'R')
    if t.op == 'ite':
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return _mk('toreal', (t,), 'R')


# ---------------------------------------------------------------- functions
def nonneg(t):
    if t.nn is None:
        t.nn = _nonneg(t)
    return t.nn


def _nonneg(t):
    op = t.op
    if op == 'c':
        return t.args[0] >= 0
    if op in ('sqrt', 'abs', 'exp'):
        return True
    if op == 'v':
        return t is PI
    if op == 'add':
        return t.args[0] >= 0 and all(k >= 0 and nonneg(x) for x, k in t.args[1])
    if op == 'mul':
        return all(e % 2 == 0 or nonneg(b) for b, e in t.args)
    if op == 'sum':
        return nonneg(t.args[2])
    if op == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if op == 'toreal':
        return nonneg(t.args[0])
    return False


def sqrt(t):
    t = toreal(t)
    if t.op == 'c':
        v = t.args[0]
        if v >= 0:
            import math
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return const(Fraction(a, b))
        return _mk('sqrt', (t,), 'R')
    # perfect even powers, rational square content
    k, p = _prod(t)
    if k > 0:
        import math
        out = R1
        a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if a * a == k.numerator and b * b == k.denominator:
            out = const(Fraction(a, b))
            k = F1
        rest = {}
        for b_, e in p:
            if e % 2 == 0 and (len(p) > 1 or True):
                out = mul(out, power(absval(b_), e // 2))
            else:
                q, r = divmod(e, 2)
                if q and nonneg(b_):
                    out = mul(out, power(b_, q))
                    rest[b_] = r
                else:
                    rest[b_] = e
        r = from_prod(k, rest, 'R')
        if r is R1:
            return out
        if r.op == 'c':
            return mul(out, _mk('sqrt', (r,), 'R'))
        return mul(out, _mk('sqrt', (r,), 'R'))
    return _mk('sqrt', (t,), 'R')


def absval(t):
    if nonneg(t):
        return t
    if nonneg(neg(t)):
        return neg(t)
    if t.op == 'c':
        return const(abs(t.args[0]), t.sort)
    if t.sort == 'I':
        return ite(lt(t, I0), neg(t), t)
    k, p = _prod(t)
    if len(p) > 1 or abs(k) != 1 or p[0][1] != 1:
        out = const(abs(k))
        for b, e in p:
            out = mul(out, power(absval(b), e))
        return out
    if k == -1:
        t = neg(t)
    return _mk('abs', (t,), 'R')


def _pi_multiple(t):
    """t = q*pi -> q (Fraction) else None"""
    if t.op == 'c' and t.args[0] == 0:
        return F0
    c, its = _lin(t)
    if c == 0 and len(its) == 1 and its[0][0] is PI:
        return its[0][1]
    return None


_COS = {Fraction(0): (1, 1), Fraction(1, 2): (0, 1), Fraction(1): (-1, 1), Fraction(3, 2): (0, 1),
        Fraction(1, 3): (1, 2), Fraction(2, 3): (-1, 2), Fraction(4, 3): (-1, 2), Fraction(5, 3): (1, 2)}


def _split_pi(t):
    """t = q*pi + rest"""
    c, its = _lin(t)
    q = F0
    d = {}
    for x, k in its:
        if x is PI:
            q = k
        else:
            d[x] = k
    return q, from_lin(c, d, 'R')


def cos(t):
    t = toreal(t)
    q, r = _split_pi(t)
    if r.op == 'c' and r.args[0] == 0:
        v = _COS.get(q % 2)
        if v is not None:
            return const(Fraction(*v))
        if (q % 2) in (Fraction(1, 4), Fraction(7, 4)):
            return scale(Fraction(1, 2), sqrt(const(2)))
        if (q % 2) in (Fraction(3, 4), Fraction(5, 4)):
            return scale(Fraction(-1, 2), sqrt(const(2)))
    elif q != 0 and (q * 2).denominator == 1:
        m = int(q * 2) % 4
        return [lambda: cos(r), lambda: neg(sin(r)), lambda: neg(cos(r)), lambda: sin(r)][m]()
    if t.op == 'abs':
        return cos(t.args[0])
    if t.op == 'asin':
        return sqrt(sub(R1, power(t.args[0], 2)))
    if t.op == 'acos':
        return t.args[0]
    if t.op == 'atan':
        return inv(sqrt(add(R1, power(t.args[0], 2))))
    if t.op == 'atan2':
        y, x = t.args
        return mul(x, inv(sqrt(add(power(x, 2), power(y, 2)))))
    if lead(t) < 0:
        t = neg(t)
    return _mk('cos', (t,), 'R')


def sin(t):
    t = toreal(t)
    q, r = _split_pi(t)
    if r.op == 'c' and r.args[0] == 0:
        q2 = (Fraction(1, 2) - q) % 2
        if q2 in _COS or q2.denominator == 4:
            return cos(scale(q2, PI))
    elif q != 0 and (q * 2).denominator == 1:
        m = int(q * 2) % 4
        return [lambda: sin(r), lambda: cos(r), lambda: neg(sin(r)), lambda: neg(cos(r))][m]()
    if t.op == 'abs':
        x = t.args[0]
        return mul(t, sin(x), inv(x))
    if t.op == 'asin':
        return t.args[0]
    if t.op == 'acos':
        return sqrt(sub(R1, power(t.args[0], 2)))
    if t.op == 'atan':
        return mul(t.args[0], inv(sqrt(add(R1, power(t.args[0], 2)))))
    if t.op == 'atan2':
        y, x = t.args
        return mul(y, inv(sqrt(add(power(x, 2), power(y, 2)))))
    if lead(t) < 0:
        return neg(sin(neg(t)))
    return _mk('sin', (t,), 'R')


def fn(op, *ts):
    ts = tuple(toreal(t) for t in ts)
    if op == 'sqrt':
        return sqrt(*ts)
    if op == 'sin':
        return sin(*ts)
    if op == 'cos':
        return cos(*ts)
    if op == 'tan':
        return mul(sin(*ts), inv(cos(*ts)))
    if op == 'abs':
        return absval(*ts)
    if op == 'log' and ts[0] is R1:
        return R0
    if op == 'log':
        k, p = _prod(ts[0]) if ts[0].op != 'c' else (None, ())
        # log(x/y) = log x - log y is only valid for positive x, y: not applied
    if op == 'atan' and ts[0] is R0:
        return R0
    if op == 'asin' and ts[0] is R0:
        return R0
    if op == 'acos' and ts[0] is R1:
        return R0
    if op == 'atan' and lead(ts[0]) < 0:
        return neg(fn('atan', neg(ts[0])))
    if op == 'rpow':
        x, y = ts
        if y.op == 'c' and y.args[0].denominator == 1:
            return power(x, int(y.args[0]))
        if y.op == 'c' and y.args[0] == Fraction(1, 2):
            return sqrt(x)
        if x is R1:
            return R1
    return _mk(op, ts, 'R')


def idiv(a, b):
    """floor division; b > 0 is the caller's business"""
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return const(a.args[0] // b.args[0], 'I')
    if b is I1:
        return a
    if a is b:
        return I1
    if a is I0:
        return I0
    q, r = _divide_out(a, b)
    if q is not I0 and r is I0:
        return q
    if q is not I0:
        return add(q, idiv(r, b) if r.op == 'c' and b.op == 'c' else _mk('idiv', (r, b), 'I'))
    return _mk('idiv', (a, b), 'I')


def _divide_out(a, b):
    """a = q*b + r, taking every monomial divisible by the monomial b"""
    c, its = _lin(b)
    if b.op == 'c':
        k = b.args[0]
        c0, ai = _lin(a)
        q, r = {}, {}
        for x, l in ai:
            if l % k == 0:
                q[x] = l / k
            else:
                r[x] = l
        qc = c0 // k if k != 0 else 0
        return from_lin(qc, q, 'I'), from_lin(c0 - qc * k, r, 'I')
    if c != 0 or len(its) != 1 or its[0][1] != 1:
        return _poly_divide(a, b, c, its)
    bb = dict(its[0][0].args) if its[0][0].op == 'mul' else {its[0][0]: 1}
    c0, ai = _lin(a)
    q, r = {}, {}
    qc = F0
    for x, l in ai:
        xd = dict(x.args) if x.op == 'mul' else {x: 1}
        if all(xd.get(y, 0) >= e for y, e in bb.items()):
            m = {y: xd[y] - bb.get(y, 0) for y in xd}
            m = tuple(sorted(((y, e) for y, e in m.items() if e), key=lambda p: p[0].id))
            if not m:
                qc += l
            else:
                mt = m[0][0] if len(m) == 1 and m[0][1] == 1 else _mk('mul', m, 'I')
                q[mt] = q.get(mt, F0) + l
        else:
            r[x] = l
    return from_lin(qc, q, 'I'), from_lin(c0, r, 'I')


def _mono(x):
    return dict(x.args) if x.op == 'mul' else {x: 1}


def _poly_divide(a, b, c, its):
    """a = q*b + r by the leading monomial of b (r in any range: settled under the facts by the caller)"""
    ls = [(sum(_mono(x).values()), x.id, x) for x, k in its if k == 1]
    if not ls:
        return I0, a
    L = _mono(max(ls)[2])
    q = I0
    for _ in range(12):
        c0, ai = _lin(a)
        best = None
        for x, l in ai:
            xd = _mono(x)
            if l.denominator == 1 and all(xd.get(y, 0) >= e for y, e in L.items()):
                m = tuple(sorted(((y, xd[y] - L.get(y, 0)) for y in xd if xd[y] != L.get(y, 0)), key=lambda p: p[0].id))
                if not m and l == 1:
                    continue
                d = sum(e for _, e in m)
                if best is None or (d, x.id) > best[0]:
                    best = ((d, x.id), m, l)
        if best is None:
            break
        _, m, l = best
        mt = const(l, 'I') if not m else scale(l, m[0][0] if len(m) == 1 and m[0][1] == 1 else _mk('mul', m, 'I'))
        q = add(q, mt)
        a = sub(a, mul(mt, b))
    if a is b:
        return add(q, I1), I0
    return q, a


def mod(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return const(a.args[0] % b.args[0], 'I')
    if b is I1 or a is b or a is I0:
        return I0
    q, r = _divide_out(a, b)
    if r.op == 'c' and b.op == 'c':
        return const(r.args[0] % b.args[0], 'I')
    if q is not I0:
        return mod(r, b)
    return _mk('mod', (r, b), 'I')


# ---------------------------------------------------------------- booleans
def boolc(v):
    return TRUE if v else FALSE


def _drop_pi(t):
    """t without its common power of pi (positive)"""
    c, its = _lin(t)
    if c:
        return t
    e = None
    for x, _ in its:
        f = dict(x.args).get(PI, 0) if x.op == 'mul' else 1 if x is PI else 0
        e = f if e is None or f < e else e
    return add(*[scale(k, mul(x, power(PI, -e))) for x, k in its]) if e else t


def _relnorm(op, t):
    """t op 0"""
    if t.op == 'c':
        v = t.args[0]
        return boolc(v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0)
    if t.sort == 'I' and op == 'lt':
        return _relnorm('le', add(t, I1))
    if t.sort == 'R' and PI in t.fv:
        t = _drop_pi(t)
        if t.op == 'c':
            return _relnorm(op, t)
    k = lead(t)
    if op == 'eq':
        t = scale(1 / k, t)
    else:
        t = scale(1 / abs(k), t)
    if t.sort == 'I':
        c, its = _lin(t)
        den = 1
        from math import gcd
        for _, kk in its:
            den = den * kk.denominator // gcd(den, kk.denominator)
        g = 0
        for _, kk in its:
            g = gcd(g, int(kk * den))
        s = Fraction(den, g)
        if op == 'le':
            c2 = c * s
            # sum + c2 <= 0, sum integral  ->  sum + ceil(c2) <= 0
            import math
            c2 = Fraction(math.ceil(c2))
            t = from_lin(c2, {x: kk * s for x, kk in its}, 'I')
        else:
            c2 = c * s
            if c2.denominator != 1:
                return FALSE
            t = from_lin(c2, {x: kk * s for x, kk in its}, 'I')
    else:
        if op != 'eq':
            if nonneg(t):
                if op == 'lt':
                    return FALSE
                c, its = _lin(t)
                if c > 0:
                    return FALSE
                op = 'eq'
                return _relnorm('eq', t)
            if nonneg(neg(t)):
                if op == 'le':
                    return TRUE
                c, its = _lin(t)
                if c < 0:
                    return TRUE
                return not_(_relnorm('eq', t))
        c, its = _lin(t)
        if len(its) == 1 and its[0][0].op == 'sqrt':
            s, k = its[0]
            q = s.args[0]
            if op == 'eq':
                if c / k > 0:
                    return FALSE
                return _relnorm('eq', sub(q, const((c / k) ** 2)))
            if k > 0:   # s < -c/k
                b = -c / k
                if b < 0 or (b == 0 and op == 'lt'):
                    return FALSE
                return _relnorm(op, sub(q, const(b * b)))
            else:       # s > b
                b = -c / k
                if b < 0:
                    return TRUE
                return _relnorm(op, sub(const(b * b), q))
        if op == 'eq' and c == 0 and len(its) == 1:
            x = its[0][0]
            if x.op == 'abs':
                return _relnorm('eq', x.args[0])
            if x.op == 'mul':
                return or_(*[_relnorm('eq', b) for b, e in x.args if e > 0]) if any(e > 0 for _, e in x.args) else FALSE
    if t.op == 'ite' and t.args[1].op == 'c' and t.args[2].op == 'c':
        return ite_b(t.args[0], _relnorm(op, t.args[1]), _relnorm(op, t.args[2]))
    if t.op in ('add', 'maxagg'):
        r = _relagg(op, t)
        if r is not None:
            return r
    if op != 'eq':
        for x, k in ([(t, 1)] if t.op == 'ite' else _lin(t)[1] if t.op == 'add' else ()):
            m = _minmax(x) if x.op == 'ite' else 0
            if m:   # min(a, b) < r  is  a < r or b < r;  max: and
                rest = sub(t, scale(k, x))
                ab = [_relnorm(op, add(scale(k, y), rest)) for y in x.args[1:]]
                return or_(*ab) if (m < 0) == (k > 0) else and_(*ab)
    return _mk(op, (t,), 'B')


def _relagg(op, t):
    """comparisons with the largest element of a (non-empty) range: for all elements, or for some element"""
    c, its = _lin(t)
    ms = [(x, k) for x, k in its if x.op == 'maxagg']
    if not ms:
        return None
    if len(its) == 2 and len(ms) == 2 and c == 0 and its[0][1] == its[1][1]:
        (x, k), (y, _) = ms
        if x.args[1] is y.args[1]:
            i, n, f = open_binder(x)
            if open_binder(y, i)[2] is neg(f):   # largest - smallest
                if op == 'lt' and k > 0:
                    return FALSE
                if op == 'le' and k < 0:
                    return TRUE
                same = forall(i, n, _relnorm('eq', sub(f, subst(f, {i: I0}))))
                return same if op != 'lt' else not_(same)
    if op == 'eq':
        return None
    x, k = ms[0]
    i, n, f = open_binder(x)
    b = _relnorm(op, add(scale(k, f), sub(t, scale(k, x))))
    return forall(i, n, b) if k > 0 else exists(i, n, b)


def _minmax(t):
    """-1 for a smaller-of-two, 1 for a larger-of-two, 0 otherwise"""
    c, a, b = t.args
    if a.sort == 'B' or c.op not in ('le', 'lt', 'or', 'and', 'eq', 'not'):
        return 0
    if c is le(a, b) or c is lt(a, b):
        return -1
    return 1 if c is le(b, a) or c is lt(b, a) else 0


def ite_b(c, a, b):
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def lt(a, b):
    return _relnorm('lt', sub(a, b))


def le(a, b):
    return _relnorm('le', sub(a, b))


def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return _relnorm('eq', sub(a, b))


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.args])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.args])
    if t.op == 'le':
        return _relnorm('lt', neg(t.args[0]))
    if t.op == 'lt':
        return _relnorm('le', neg(t.args[0]))
    if t.op == 'forall':
        return _mk('exists', (t.args[0], t.args[1], not_(t.args[2])), 'B')
    if t.op == 'exists':
        return _mk('forall', (t.args[0], t.args[1], not_(t.args[2])), 'B')
    return _mk('not', (t,), 'B')


def and_(*ts):
    s = {}
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.args if t.op == 'and' else (t,)):
            s[x.id] = x
    for x in s.values():
        if not_(x).id in s:
            return FALSE
    if not s:
        return TRUE
    items = tuple(s[k] for k in sorted(s))
    return items[0] if len(items) == 1 else _mk('and', items, 'B')


def or_(*ts):
    s = {}
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.args if t.op == 'or' else (t,)):
            s[x.id] = x
    for x in s.values():
        if not_(x).id in s:
            return TRUE
    if not s:
        return FALSE
    items = tuple(s[k] for k in sorted(s))
    return items[0] if len(items) == 1 else _mk('or', items, 'B')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return ite_b(c, a, b)
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
        if a is b:
            return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # same-condition collapse
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == 'ite':
        r = _peeled(c, a, b)
        if r is not None:
            return r
    return _mk('ite', (c, a, b), a.sort)


def _edge(c):
    """x >= k or x <= k over the integers: (x, k, +1/-1); x == k: (x, k, 0)"""
    if c.op in ('le', 'eq') and c.args[0].sort == 'I':
        k, its = _lin(c.args[0])
        if len(its) == 1 and its[0][1] in (1, -1) and its[0][0].op == 'v':
            x, e = its[0]
            return x, -k * e, (-e if c.op == 'le' else 0)
    return None


def _peeled(c, a, b):
    """x >= k ? F(x) : x == k-1 ? F(k-1) : r   is   x >= k-1 ? F(x) : r  (a first or last iteration written apart)"""
    p, q = _edge(c), _edge(b.args[0])
    if p is None or q is None or p[0] is not q[0]:
        return None
    x = p[0]
    if p[2] and not q[2]:
        if q[1] == p[1] - p[2] and subst(a, {x: const(q[1], 'I')}) is b.args[1]:
            return ite(_relnorm('le', scale(p[2], sub(const(q[1], 'I'), x))), a, b.args[2])
    elif q[2] and not p[2]:
        if p[1] == q[1] - q[2] and subst(b.args[1], {x: const(p[1], 'I')}) is a:
            return ite(_relnorm('le', scale(q[2], sub(const(p[1], 'I'), x))), b.args[1], b.args[2])
    return None


# ---------------------------------------------------------------- binders
def _bind(op, x, n, body, sort):
    lvl = max(body.lvl, n.lvl) + 1
    b = var('_b%d' % lvl, 'I')
    return _mk(op, (b, n, subst(body, {x: b})), sort)


def _block(x, n, body):
    """k if n is a multiple of the constant k and body reads its index x by row x // k or column x % k"""
    c, its = _lin(n)
    if not its or all(e.denominator == 1 and abs(e) == 1 for _, e in its):
        return 0
    for a in atoms_of(body, lambda y: y.op in ('idiv', 'mod') and y.args[1].op == 'c' and x in y.fv):
        k = a.args[1].args[0]
        if 2 <= k <= 12 and c % k == 0 and all(e % k == 0 for _, e in its):
            return int(k)
    return 0


def mksum(x, n, body):
    """sum over x in [0, n)"""
    body = toreal(body)
    if body is R0 or n is I0:
        return R0
    if n.op == 'c':
        if n.args[0] <= 0:
            return R0
        if n.args[0] <= 64:
            return add(*[subst(body, {x: const(i, 'I')}) for i in range(int(n.args[0]))])
    if x not in body.fv:
        return mul(toreal(n), body)
    c, its = _lin(body)
    if len(its) > 1 or c != 0 or its[0][1] != 1:
        out = [mul(toreal(n), const(c))] if c else []
        for t, k in its:
            out.append(scale(k, mksum(x, n, t)))
        return add(*out)
    k = _block(x, n, body)
    if k:   # a flattened array with k columns
        m = idiv(n, const(k, 'I'))
        kx = scale(k, x)
        return add(*[mksum(x, m, subst(body, {x: add(kx, const(r, 'I'))})) for r in range(k)])
    # pull constant factors out
    if body.op == 'mul':
        inn, outp = {}, {}
        for b, e in body.args:
            (inn if x in b.fv else outp)[b] = e
        if outp:
            return mul(from_prod(F1, outp, 'R'), mksum(x, n, from_prod(F1, inn, 'R')))
    return _bind('sum', x, n, body, 'R')


def forall(x, n, body):
    if body is TRUE or n is I0:
        return TRUE
    if n.op == 'c' and n.args[0] <= 64:
        return and_(*[subst(body, {x: const(i, 'I')}) for i in range(int(n.args[0]))])
    if x not in body.fv:
        return or_(le(n, I0), body)
    if body.op == 'and':
        return and_(*[forall(x, n, b) for b in body.args])
    return _bind('forall', x, n, body, 'B')


def exists(x, n, body):
    return not_(forall(x, n, not_(body)))


def open_binder(t, x=None):
    b, n, body = t.args
    if x is None:
        x = fresh('k', 'I')
    return x, n, subst(body, {b: x})


# ---------------------------------------------------------------- rebuild / subst
def rebuild(t, f):
    """rebuild t with f applied to direct subterms (binders handled by caller)"""
    op = t.op
    if op == 'add':
        c, its = t.args
        out = [const(c, t.sort)]
        for x, k in its:
            out.append(scale(k, f(x)))
        return add(*out)
    if op == 'mul':
        if t.sort == 'I':
            return mul(*[power(f(b), e) for b, e in t.args])
        return mul(*[power(f(b), e) for b, e in t.args])
    if op == 'app':
        return app(t.args[0], [f(x) for x in t.args[1:]], t.sort)
    if op == 'toreal':
        return toreal(f(t.args[0]))
    if op == 'ite':
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == 'idiv':
        return idiv(f(t.args[0]), f(t.args[1]))
    if op == 'mod':
        return mod(f(t.args[0]), f(t.args[1]))
    if op in ('lt', 'le', 'eq'):
        return _relnorm(op, f(t.args[0]))
    if op == 'not':
        return not_(f(t.args[0]))
    if op == 'and':
        return and_(*[f(x) for x in t.args])
    if op == 'or':
        return or_(*[f(x) for x in t.args])
    return fn(op, *[f(x) for x in t.args])


def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(t):
        if t.op == 'v':
            return m.get(t, t)
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('sum', 'forall', 'exists', 'maxagg'):
            b, n, body = t.args
            x = fresh('s', 'I')
            nb = subst(subst(body, {b: x}), {k: v for k, v in m.items() if k is not b})
            nn = go(n)
            r = {'sum': mksum, 'forall': forall, 'exists': exists, 'maxagg': mkmax}[t.op](x, nn, nb)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def subst_apps(t, m):
    """replace closed subterms"""
    memo = dict(m)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('c', 'v', 'b'):
            return t
        if t.op in ('sum', 'forall', 'exists', 'maxagg'):
            r = t
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def mkmax(x, n, body):
    """max over x in [0,n), n >= 1"""
    body = toreal(body)
    if n.op == 'c' and n.args[0] >= 1 and n.args[0] <= 64:
        ts = [subst(body, {x: const(i, 'I')}) for i in range(int(n.args[0]))]
        r = ts[0]
        for t in ts[1:]:
            r = tmax(r, t)
        return r
    if x not in body.fv:
        return body
    c, its = _lin(body)
    out = {y: k for y, k in its if x not in y.fv}
    if c or out:   # what does not depend on the index stays outside
        return add(from_lin(c, out, 'R'), mkmax(x, n, from_lin(Fraction(0), {y: k for y, k in its if x in y.fv}, 'R')))
    k = max(abs(k) for _, k in its)   # (not the leading one: the order of the terms depends on the index)
    return scale(k, _bind('maxagg', x, n, scale(1 / k, body), 'R'))


def tmax(a, b):
    return ite(le(b, a), a, b)


def tmin(a, b):
    return ite(le(a, b), a, b)


def replace_cond(t, cond, val):
    """replace boolean atom cond by val everywhere in t"""
    neg_c = not_(cond)
    memo = {}

    def go(t):
        if t is cond:
            return val
        if t is neg_c:
            return not_(val)
        if t.op in ('c', 'v', 'b'):
            return t
        r = memo.get(t)
        if r is None:
            if t.op in ('sum', 'forall', 'exists', 'maxagg'):
                b, n, body = t.args
                nn, nb = go(n), go(body)
                if nn is n and nb is body:
                    r = t
                else:
                    x = fresh('s', 'I')
                    nb = subst(nb, {b: x})
                    r = {'sum': mksum, 'forall': forall, 'exists': exists, 'maxagg': mkmax}[t.op](x, nn, nb)
            else:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def find_ites(t, out=None, seen=None):
    """conditions of ite terms occurring outside binders (bound-variable-free)"""
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.op == 'ite':
        if t.args[0].lvl == 0 or not any(v.args[0].startswith('_b') for v in t.args[0].fv):
            if t.args[0] not in out:
                out.append(t.args[0])
    for s in subterms(t):
        find_ites(s, out, seen)
    return out


def bool_atoms(t, out=None):
    if out is None:
        out = []
    if t.op in ('and', 'or', 'not'):
        for s in t.args:
            bool_atoms(s, out)
    elif t.op != 'b' and t not in out:
        out.append(t)
    return out


def atoms_of(t, pred, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for s in subterms(t):
        atoms_of(s, pred, out, seen)
    return out


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth == 0:
        return '..'
    op = t.op
    if op == 'c':
        v = t.args[0]
        return str(v)
    if op == 'b':
        return str(t.args[0])
    if op == 'v':
        return t.args[0]
    d = depth - 1
    if op == 'add':
        c, its = t.args
        out = []
        for x, k in its[:12]:
            s = show(x, d)
            out.append(s if k == 1 else ('-' + s if k == -1 else '%s*%s' % (k, s)))
        if len(its) > 12:
            out.append('..%d more' % (len(its) - 12))
        if c:
            out.append(str(c))
        return '(' + ' + '.join(out) + ')'
    if op == 'mul':
        return '*'.join(show(b, d) + ('' if e == 1 else '^%d' % e) for b, e in t.args)
    if op == 'app':
        return '%s[%s]' % (t.args[0], ','.join(show(x, d) for x in t.args[1:]))
    if op in ('lt', 'le', 'eq'):
        return '%s %s 0' % (show(t.args[0], d), {'lt': '<', 'le': '<=', 'eq': '=='}[op])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in t.args) + ')'
    if op in ('sum', 'forall', 'exists', 'maxagg'):
        return '%s(%s<%s: %s)' % (op, show(t.args[0], d), show(t.args[1], d), show(t.args[2], d))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in t.args))
