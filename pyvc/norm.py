"""Polynomial / rational-function normaliser: the 'ring' back end.

expand(t) gives a Laurent polynomial over canonical atoms; is_zero clears
denominators and applies  sqrt(q)^2 = q,  |x|^2 = x^2,  sin^2+cos^2 = 1.
Sound for terms whose denominators are non-zero and radicands non-negative
(the definedness obligations are separate).
"""
from fractions import Fraction
from . import terms as tm
from .terms import T, F0, F1

LIMIT = 60000
WORK = [0]
WORK_LIMIT = [3000000]


class TooBig(Exception):
    pass


def padd(p, q, k=F1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def _needs(m):
    for a, e in m:
        op = a.op
        if op == 'sqrt' and (e >= 2 or e < 0):
            return True
        if op == 'abs' and (e >= 2 or e <= -2):
            return True
        if op == 'sin' and e >= 2:
            return True
    return False


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    WORK[0] += len(p) * len(q)
    if WORK[0] > WORK_LIMIT[0]:
        raise TooBig()
    r = {}
    fix = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = mono_mul(m, n)
            tgt = r
            v = tgt.get(mn, F0) + c * d
            if v:
                tgt[mn] = v
            else:
                tgt.pop(mn, None)
    if len(r) > LIMIT:
        raise TooBig()
    bad = [m for m in r if _needs(m)]
    if bad:
        for m in bad:
            c = r.pop(m)
            r = padd(r, _fix_mono(m), c)
    return r


def _fix_mono(m):
    keep = []
    out = {(): F1}
    for a, e in m:
        if a.op == 'sqrt' and (e >= 2 or e < 0):
            k, rem = divmod(e, 2)
            out = pmul(out, ppow(expand(a.args[0]), k))
            if rem:
                keep.append((a, 1))
        elif a.op == 'abs' and (e >= 2 or e <= -2):
            k = int(e / 2)
            rem = e - 2 * k
            out = pmul(out, ppow(expand(a.args[0]), 2 * k))
            if rem:
                keep.append((a, rem))
        elif a.op == 'sin' and e >= 2:
            k, rem = divmod(e, 2)
            c = tm.cos(a.args[0])
            out = pmul(out, ppow({(): F1, ((c, 2),): -F1} if c.op == 'cos' else expand(tm.sub(tm.R1, tm.power(c, 2))), k))
            if rem:
                keep.append((a, 1))
        else:
            keep.append((a, e))
    return pmul(out, {tuple(keep): F1})


def ppow(p, n):
    if n == 0:
        return {(): F1}
    if n < 0:
        return ppow(pinv(p), -n)
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


def pinv(p):
    if not p:
        return {((tm.app('@undef_div', (tm.R0,)), 1),): F1}
    if len(p) == 1:
        (m, c), = p.items()
        mm = tuple((a, -e) for a, e in m)
        if _needs(mm):
            return {k: v / c for k, v in _fix_mono(mm).items()}
        return {mm: F1 / c}
    # monomial content
    g = None
    for m in p:
        d = dict(m)
        if g is None:
            g = d
        else:
            g = {a: min(g.get(a, 0), d.get(a, 0)) for a in set(g) | set(d)}
    g = {a: e for a, e in g.items() if e}
    gi = tuple(sorted(((a, -e) for a, e in g.items()), key=lambda x: x[0].id))
    if gi:
        p = {mono_mul(m, gi): c for m, c in p.items()}
    t = to_term(p)
    k = tm.lead(t)
    t = tm.scale(1 / k, t)
    r = {((t, -1),): 1 / k}
    if gi:
        r = pmul(r, {gi: F1}) if not _needs(gi) else pmul(r, _fix_mono(gi))
    return r


def to_term(p):
    d = {}
    c = F0
    for m, k in p.items():
        if m == ():
            c += k
            continue
        t = m[0][0] if len(m) == 1 and m[0][1] == 1 else tm._mk('mul', m, 'R')
        d[t] = d.get(t, F0) + k
    return tm.from_lin(c, d, 'R')


def expand(t):
    r = t.exp_cache
    if r is None:
        r = _expand(t)
        t.exp_cache = r
    return r


def _atom(t):
    return {((t, 1),): F1}


def _expand(t):
    op = t.op
    if op == 'c':
        return {(): t.args[0]} if t.args[0] else {}
    if op == 'v':
        return _atom(t)
    if op == 'add':
        c, its = t.args
        r = {(): c} if c else {}
        for x, k in its:
            for m, v in expand(x).items():
                nv = r.get(m, F0) + v * k
                if nv:
                    r[m] = nv
                else:
                    r.pop(m, None)
        return r
    if op == 'mul':
        r = {(): F1}
        for b, e in sorted(t.args, key=lambda x: x[0].size):
            r = pmul(r, ppow(expand(b), e))
        return r
    if op == 'toreal':
        a = tm.toreal(icanon(t.args[0]))
        if a.op == 'toreal':
            return _atom(a)
        return expand(a)
    if op == 'app':
        n = tm.app(t.args[0], [icanon(x) if x.sort == 'I' else canon(x) if x.sort == 'R' else bcanon(x) for x in t.args[1:]], t.sort)
        return _atom(n)
    if op == 'ite':
        c = bcanon(t.args[0])
        n = tm.ite(c, canon(t.args[1]), canon(t.args[2]))
        if n.op != 'ite':
            return expand(n) if n is not t else _atom(n)
        return _atom(n)
    if op == 'sum':
        x, n, body = tm.open_binder(t)
        n = icanon(n)
        out = {}
        for m, c in expand(body).items():
            inn = tuple((a, e) for a, e in m if x in a.fv)
            outm = tuple((a, e) for a, e in m if x not in a.fv)
            if not inn:
                p = pmul({outm: c}, expand(tm.toreal(n)))
            else:
                s = tm._bind('sum', x, n, tm._mk('mul', inn, 'R') if not (len(inn) == 1 and inn[0][1] == 1) else inn[0][0], 'R')
                p = pmul({outm: c}, _atom(s))
            out = padd(out, p)
        return out
    if op == 'maxagg':
        x, n, body = tm.open_binder(t)
        n, body = icanon(n), canon(body)
        m = tm.mkmax(x, n, body)
        c, its = tm._lin(m)
        if not c and len(its) == 1 and its[0][0].op == 'maxagg':
            return pmul({(): its[0][1]}, _atom(its[0][0]))
        return expand(m) if m.op != 'maxagg' else _atom(m)
    # functions
    n = tm.fn(op, *[canon(a) for a in t.args])
    if n.op == op:
        return _atom(n)
    return expand(n)


_canon = {}


def canon(t):
    if t.sort == 'I':
        return icanon(t)
    if t.sort == 'B':
        return bcanon(t)
    r = _canon.get(t)
    if r is None:
        r = to_term(cancel(expand(t)))
        _canon[t] = r
    return r


def icanon(t):
    if t.op in ('c', 'v'):
        return t
    r = _canon.get(t)
    if r is None:
        r = tm.rebuild(t, icanon) if t.op != 'ite' else tm.ite(bcanon(t.args[0]), icanon(t.args[1]), icanon(t.args[2]))
        _canon[t] = r
    return r


def bcanon(t):
    if t.op in ('b', 'v'):
        return t
    r = _canon.get(t)
    if r is None:
        if t.op in ('forall', 'exists'):
            x, n, body = tm.open_binder(t)
            r = getattr(tm, t.op)(x, icanon(n), bcanon(body))
        elif t.op == 'app':
            r = tm.app(t.args[0], [canon(x) for x in t.args[1:]], 'B')
        else:
            r = tm.rebuild(t, canon)
        _canon[t] = r
    return r


# ---------------------------------------------------------------- exact division
def _key(m, order):
    d = dict(m)
    return tuple(d.get(a, 0) for a in order)


def pdiv_exact(p, q, maxsteps=4000):
    order = set()
    for m in list(p) + list(q):
        for a, _ in m:
            order.add(a)
    order = sorted(order, key=lambda a: a.id)

    def gkey(m):
        k = _key(m, order)
        return (sum(k), k)
    lq = max(q, key=gkey)
    cq = q[lq]
    inv_lq = tuple((a, -e) for a, e in lq)
    out = {}
    r = dict(p)
    lo = {a: 0 for a in order}
    for m in p:
        d = dict(m)
        for a in order:
            lo[a] = min(lo[a], d.get(a, 0))
    while r:
        maxsteps -= 1
        if maxsteps < 0:
            return None
        lr = max(r, key=gkey)
        k = mono_mul(lr, inv_lq)
        d = dict(k)
        if any(d.get(a, 0) < lo[a] for a in order):
            return None
        c = r[lr] / cq
        out[k] = out.get(k, F0) + c
        for m, v in q.items():
            mm = mono_mul(m, k)
            nv = r.get(mm, F0) - v * c
            if nv:
                r[mm] = nv
            else:
                r.pop(mm, None)
    return out


def den_atoms(p):
    d = {}
    for m in p:
        for a, e in m:
            if e < 0 and a.op == 'add':
                d[a] = max(d.get(a, 0), -e)
    return d


def cancel(p):
    again = True
    n = 0
    while again and n < 6:
        again = False
        n += 1
        for D, k in den_atoms(p).items():
            grp = {m: c for m, c in p.items() if dict(m).get(D, 0) == -k}
            if not grp or len(grp) > 400:
                continue
            up = ((D, k),)
            C = {mono_mul(m, up): c for m, c in grp.items()}
            Dp = expand(D)
            if len(C) < 2 or len(Dp) > 60:
                continue
            q = pdiv_exact(C, Dp)
            if q is None:
                # try common denominator across all groups
                continue
            rest = {m: c for m, c in p.items() if m not in grp}
            low = ((D, -(k - 1)),) if k > 1 else ()
            for m, c in q.items():
                mm = mono_mul(m, low)
                v = rest.get(mm, F0) + c
                if v:
                    rest[mm] = v
                else:
                    rest.pop(mm, None)
            p = rest
            bad = [m for m in p if _needs(m)]
            for m in bad:
                c = p.pop(m)
                p = padd(p, _fix_mono(m), c)
            again = True
            break
    return p


def clear_den(p, got=None):
    """multiply by denominators until none is left; returns polynomial equal to 0 iff p is (den != 0)"""
    for _ in range(60):
        d = den_atoms(p)
        neg_special = {}
        for m in p:
            for a, e in m:
                if e < 0 and a.op in ('sin', 'abs', 'cos'):
                    neg_special[a] = max(neg_special.get(a, 0), -e)
        if not d and not neg_special:
            return p
        if d:
            D = max(d, key=lambda a: a.id)
            k = d[D]
            Dp = expand(D)
        else:
            D = max(neg_special, key=lambda a: a.id)
            k = neg_special[D]
            Dp = {((D, 1),): F1}
        if got is not None:
            got.append((D, k))
        groups = {}
        for m, c in p.items():
            e = dict(m).get(D, 0)
            if e < 0 or not d:
                base = tuple((a, x) for a, x in m if a is not D)
            else:
                base, e = m, 0
            groups.setdefault(e, {})[base] = c
        out = {}
        for e, g in groups.items():
            g2 = {}
            for m, c in g.items():
                g2[m] = g2.get(m, F0) + c
            out = padd(out, pmul(g2, ppow(Dp, k + e)) if k + e else g2)
        p = out
    raise TooBig()


def is_zero_poly(p):
    if not p:
        return True
    for _ in range(4):
        p = clear_den(p)
        if not p:
            return True
        q = {}
        hit = False
        for m, c in p.items():
            s = [(a, e) for a, e in m if a.op == 'add' and e > 0]
            if not s:
                q = padd(q, {m: c})
                continue
            hit = True
            r = {tuple(x for x in m if x not in s): c}
            for a, e in s:
                r = pmul(r, ppow(expand(a), e))
            q = padd(q, r)
        if not hit:
            return False
        p = q
        if not p:
            return True
    return False


def is_zero(t, trig=True):
    """t == 0 as rational functions; False means 'not shown'"""
    WORK[0] = 0
    try:
        p = expand(t)
        if is_zero_poly(p):
            return True
        if trig and has_trig(t):
            t2 = trig_rewrite(t)
            if t2 is not t:
                return is_zero_poly(expand(t2))
    except TooBig:
        return False
    return False


# ---------------------------------------------------------------- trigonometry
def has_trig(t):
    return bool(tm.atoms_of(t, lambda x: x.op in ('sin', 'cos')))


def _fgcd(a, b):
    from math import gcd
    n = gcd(a.numerator * b.denominator, b.numerator * a.denominator)
    return Fraction(n, a.denominator * b.denominator)


def trig_rewrite(t):
    ats = tm.atoms_of(t, lambda x: x.op in ('sin', 'cos'))
    unit = {}
    for a in ats:
        arg = canon(a.args[0])
        c, its = tm._lin(arg)
        if c:
            its = its + ((tm.R1, c),)
        for x, k in its:
            unit[x] = _fgcd(unit[x], abs(k)) if x in unit else abs(k)
    memo = {}

    def multi(x, n):
        """(cos, sin) of n * unit angle"""
        u = tm.scale(unit[x], x)
        c, s = tm.cos(u), tm.sin(u)
        if n < 0:
            C, S = multi(x, -n)
            return C, tm.neg(S)
        C, S = tm.R1, tm.R0
        for _ in range(n):
            C, S = (tm.sub(tm.mul(C, c), tm.mul(S, s)), tm.add(tm.mul(S, c), tm.mul(C, s)))
        return C, S

    def go(t):
        if t.op in ('c', 'v', 'b'):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ('sin', 'cos'):
            arg = canon(t.args[0])
            c, its = tm._lin(arg)
            if c:
                its = its + ((tm.R1, c),)
            if sum(abs(k / unit[x]) for x, k in its) > 8 or (len(its) == 1 and its[0][1] == unit[its[0][0]]):
                r = tm.fn(t.op, arg)
            else:
                C, S = tm.R1, tm.R0
                for x, k in its:
                    c1, s1 = multi(x, int(k / unit[x]))
                    C, S = (tm.sub(tm.mul(C, c1), tm.mul(S, s1)), tm.add(tm.mul(S, c1), tm.mul(C, s1)))
                r = C if t.op == 'cos' else S
        elif t.op in ('sum', 'forall', 'exists', 'maxagg'):
            r = t
        else:
            r = tm.rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- linear combination of hints
def in_span(t, hints):
    """t == 0 given that every hint == 0, by a rational linear combination"""
    WORK[0] = 0
    try:
        g = expand(t)
        hs = [expand(h) for h in hints]
    except TooBig:
        return False
    # keep hints that share monomials (transitively is not needed in practice)
    monos = {}
    for p in [g] + hs:
        for m in p:
            monos.setdefault(m, len(monos))
    # gaussian elimination: rows = hints
    rows = []
    for h in hs:
        r = {monos[m]: c for m, c in h.items()}
        for piv, pr in rows:
            if piv in r:
                f = r[piv] / pr[piv]
                for k, v in pr.items():
                    nv = r.get(k, F0) - f * v
                    if nv:
                        r[k] = nv
                    else:
                        r.pop(k, None)
        if r:
            piv = next(iter(r))
            rows.append((piv, r))
    r = {monos[m]: c for m, c in g.items()}
    for piv, pr in rows:
        if piv in r:
            f = r[piv] / pr[piv]
            for k, v in pr.items():
                nv = r.get(k, F0) - f * v
                if nv:
                    r[k] = nv
                else:
                    r.pop(k, None)
    return not r
