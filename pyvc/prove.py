"""Discharging equalities and conditions.

Back ends: 'syntactic' (hash-consed normal terms), 'ring' (rational-function normaliser), 'cases' (ring after
case splitting on ite conditions / signs), 'smt' (z3), 'sum' (congruence under a bounded sum).
Numeric sampling is only used to *refute* (find a counterexample candidate), never to accept.
"""
import random
import time
from fractions import Fraction
from . import terms as tm
from . import norm, sign, solve
from .core import _quotient_instances, CTX, Infeasible, Unsupported
from .solve import Env, evaluate, Undefined

STAT = {}
UNFOLD = {}     # opaque application -> function(args) -> term
BUDGET = [25.0]


class Res:
    def __init__(self, status, how='', env=None, why=''):
        self.status, self.how, self.env, self.why = status, how, env, why

    def __repr__(self):
        return 'Res(%s,%s,%s)' % (self.status, self.how, self.why)


def quick_zero(d):
    """cheap proof attempt of d == 0 under the current facts"""
    if d in (tm.R0, tm.I0):
        return True
    if not screen_zero(d, 6):
        return False
    return zero(d, time.time() + 6, 3)


def screen_zero(d, n):
    """False if some sample (ignoring the facts) makes d clearly non-zero and the facts hold there"""
    for s in range(n):
        env = Env(1000 + s)
        try:
            v = evaluate(d, env)
            if abs(v) > 1e-6 and all(evaluate(f, env) for f in CTX.facts):
                return False
        except (Undefined, OverflowError, ZeroDivisionError, RecursionError):
            pass
    return True


# ---------------------------------------------------------------- proving d == 0
def _fact_substs():
    """equations among the facts of the form atom == expr (atom a variable or application not in expr)"""
    m = {}
    eqs = [f.args[0] for f in CTX.facts if f.op == 'eq']
    les = [f.args[0] for f in CTX.facts if f.op == 'le' and f.args[0].sort == 'I']
    for _ in range(4):
        n = len(m)
        for e in eqs + _both_ways(les):
            _solve_for(e, m)
        if len(m) == n:
            break
        # bounds that have become equations
        sm = {x: v for x, v in m.items() if x.sort == 'I'}
        les = [y if not sm else tm.subst(y, sm) for y in les]
        eqs = []
    return m


def _both_ways(les):
    have = set(les)
    return [e for e in les if tm.neg(e) in have and e.op != 'c']


def _solve_for(e, m):
    if m:
        e = tm.subst(e, m)
    c, its = tm._lin(e)
    for x, k in sorted(its, key=lambda p: -p[0].id):
        if x.op in ('v', 'app') and x not in m:
            rest = tm.add(tm.scale(Fraction(-1) / k, e), x)
            if x.sort == 'I' and any(v.denominator != 1 for v in [tm._lin(rest)[0]] + [q for _, q in tm._lin(rest)[1]]):
                continue
            if _occurs(x, rest):
                continue
            if x.op == 'v':
                m[x] = rest
                break


def _app_equations(d):
    """facts that equate two ground applications, and instances of universal ones at the indices of the goal: larger -> smaller"""
    out = []
    facts = list(CTX.facts)
    for f in CTX.facts:
        if f.op != 'forall':
            continue
        x, n, body = tm.open_binder(f)
        if body.op != 'eq':
            continue
        names = {t.args[0] for t in tm.atoms_of(body, lambda y: y.op == 'app' and x in y.fv)}
        idx = []
        for t in tm.atoms_of(d, lambda y: y.op == 'app' and y.args[0] in names and not _bound(y)):
            idx.extend(a for a in t.args[1:] if a.sort == 'I' and a not in idx)
        for v in _quotient_instances(x, body, idx[:8], True):
            if CTX.entails(tm.le(tm.I0, v)) and CTX.entails(tm.lt(v, n)):
                facts.append(CTX.simp(tm.subst(body, {x: v})))
    for f in facts:
        if f.op != 'eq' or f.args[0].sort == 'B':
            continue
        c, its = tm._lin(f.args[0])
        its = list(its)
        if c == 0 and len(its) == 2 and its[0][1] == -its[1][1] and all(x.op == 'app' and not _bound(x) for x, _ in its):
            a, b = sorted((x for x, _ in its), key=lambda x: (x.size, x.id))
            out.append((b, a))
    return out


def _occurs(x, t):
    return bool(tm.atoms_of(t, lambda y: y is x))


def known(a):
    """truth value of a condition under the facts, if determined"""
    fs = CTX.facts
    c = norm.bcanon(a)
    for x in ((a, c) if c is not a else (a,)):
        if x is tm.TRUE or x in fs:
            return True
        nx = tm.not_(x)
        if nx is tm.TRUE or nx in fs:
            return False
    for x in ((c, a) if c is not a else (a,)):
        if solve.entails(fs, x):
            return True
        if solve.entails(fs, tm.not_(x)):
            return False
    return None


def zero(d, deadline, depth=12):
    if d.op == 'c':
        return d.args[0] == 0
    if time.time() > deadline:
        return False
    d = CTX.simp(d)
    if d.op == 'c':
        return d.args[0] == 0
    if d.sort == 'I':
        return solve.entails(CTX.facts, tm.eq(d, tm.I0))
    if norm.is_zero(d):
        return True
    m = _fact_substs()
    if m:
        d2 = d
        for _ in range(4):
            d3 = tm.subst(d2, m)
            if d3 is d2:
                break
            d2 = d3
        if d2 is not d:
            d2 = CTX.simp(d2)
            if d2.op == 'c':
                return d2.args[0] == 0
            if norm.is_zero(d2):
                return True
            d = d2
    apps = _app_equations(d)
    if apps:
        d2 = d
        for _ in range(3):
            d3 = d2
            for x, y in apps:
                if _occurs(x, d3):
                    d3 = _repl(d3, x, y)
            if d3 is d2:
                break
            d2 = d3
        if d2 is not d:
            d2 = CTX.simp(d2)
            if d2.op == 'c':
                return d2.args[0] == 0
            if norm.is_zero(d2):
                return True
    hints = [f.args[0] for f in CTX.facts if f.op == 'eq' and f.args[0].sort == 'R']
    if hints and norm.in_span(d, hints):
        return True
    if depth > 0:
        d2 = _split_logs(d)
        if d2 is not d:
            return zero(d2, deadline, depth - 1)
    conds = tm.find_ites(d)
    if conds and depth > 0:
        # split on the condition with the most occurrences (smallest on ties)
        atoms = []
        for c in conds:
            for a in tm.bool_atoms(c):
                if a not in atoms:
                    atoms.append(a)
        atoms.sort(key=lambda a: (a.lvl, a.size))
        for a in atoms:
            if a.lvl and _bound(a):
                continue
            k = known(a)
            if k is not None:
                return zero(tm.replace_cond(d, a, tm.TRUE if k else tm.FALSE), deadline, depth)
        for a in atoms[:1]:
            return both(a, d, deadline, depth)
    absl = tm.atoms_of(d, lambda y: y.op == 'abs' and not _bound(y))
    if absl and depth > 0:
        x = absl[0].args[0]
        ok = True
        for c, r in ((tm.le(tm.R0, x), x), (tm.lt(x, tm.R0), tm.neg(x))):
            mk = CTX.mark()
            try:
                CTX.assume(c)
                if solve.check(CTX.facts) == 'unsat':
                    continue
                if not zero(_repl(d, absl[0], r), deadline, depth - 1):
                    return False
            except Infeasible:
                pass
            finally:
                CTX.undo_facts(mk)
        return True
    if depth > 2:
        d2 = _split_binders(d)
        if d2 is not d:
            return zero(d2, deadline, depth - 1)
    if _sums(d, deadline, depth):
        return True
    if _roots(d):
        return True
    if depth > 6 and tm.atoms_of(d, lambda y: y.op == 'sum'):
        # add a multiple of an equation among the facts
        for f in list(CTX.facts):
            if f.op == 'eq' and f.args[0].sort == 'R' and tm.atoms_of(f.args[0], lambda y: y.op == 'sum'):
                for sg in (-1, 1):
                    e = tm.add(d, tm.scale(sg, f.args[0]))
                    if (e.op == 'c' and e.args[0] == 0) or norm.is_zero(e) or _sums(e, deadline, min(depth, 6)):
                        return True
    op = tm.atoms_of(d, lambda y: y.op == 'app' and y.args[0] in UNFOLD and not _bound(y))
    if op:
        d2 = tm.subst_apps(d, {x: UNFOLD[x.args[0]](x.args[1:]) for x in op})
        if d2 is not d:
            return zero(d2, deadline, depth - 1)
    if depth > 2:
        d2 = _merge_binders(d, deadline, depth)
        if d2 is not d:
            return zero(d2, deadline, depth - 1)
    # last resort: linear facts over the reals
    if d.size < 60 and solve.entails(CTX.facts, tm.eq(d, tm.R0), 1):
        return True
    return False


def _primes(n):
    r, p = {}, 2
    while p * p <= n and p < 5000:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def _split_logs(d):
    """log(c a^i b^j ...) = log c + i log a + j log b + ...  where the facts show every factor positive;
    rational constants are split into primes"""
    logs = tm.atoms_of(d, lambda y: y.op == 'log' and not _bound(y))
    if not logs:
        return d
    m = {}
    for l in logs:
        r = _log_parts(l.args[0])
        if r is not None and r is not l:
            m[l] = r
    if not m:
        return d
    for l, r in m.items():
        d = _repl(d, l, r)
    return CTX.simp(d)


def _log_parts(x):
    if tm.find_ites(x):
        return None
    try:
        p = norm.expand(x)
    except norm.TooBig:
        return None
    if not p:
        return None
    g = None
    for mono in p:
        e = dict(mono)
        g = e if g is None else {a: min(g.get(a, 0), e.get(a, 0)) for a in set(g) | set(e)}
    g = {a: e for a, e in g.items() if e}
    gi = tuple(sorted(((a, -e) for a, e in g.items()), key=lambda y: y[0].id))
    rest = norm.to_term({norm.mono_mul(mono, gi): c for mono, c in p.items()})
    k = tm.lead(rest) if rest.op != 'c' else rest.args[0]
    if k < 0:
        k = -k
    parts = [(1, k)] if k != 1 else []
    if k != 1:
        rest = tm.scale(1 / k, rest)
    sgn = 1
    if rest.op == 'c':
        if abs(rest.args[0]) != 1:
            return None
        sgn = int(rest.args[0])
    fac = list(g.items())
    if rest.op != 'c':
        fac.append((rest, 1))
    if len(fac) + len(parts) < 2 and not (parts and len(_primes(k.numerator)) + len(_primes(k.denominator)) > 1) \
            and not (fac and fac[0][1] != 1) and not (parts and (k.denominator != 1 or list(_primes(k.numerator).values()) != [1])):
        return None
    for n, (a, e) in enumerate(fac):
        if solve.entails(CTX.facts, tm.lt(tm.R0, a), 1):
            continue
        if e != int(e) or not solve.entails(CTX.facts, tm.lt(a, tm.R0), 1):
            return None
        fac[n] = (tm.neg(a), e)
        if e % 2:
            sgn = -sgn
    if sgn < 0:
        return None
    r = tm.R0
    if parts:
        for s, n in ((1, k.numerator), (-1, k.denominator)):
            for q, e in _primes(n).items():
                r = tm.add(r, tm.scale(s * e, tm.fn('log', tm.const(q))))
    for a, e in fac:
        r = tm.add(r, tm.scale(e, tm.fn('log', a)))
    return r


def _sign(t):
    """1 / -1 if t >= 0 / t <= 0 follows from the facts, else None"""
    if t.op == 'c':
        return 1 if t.args[0] >= 0 else -1
    if t.op in ('sqrt', 'abs'):
        return 1
    t = CTX.simp(t)
    if CTX.entails(tm.le(tm.R0, t)):
        return 1
    if CTX.entails(tm.le(t, tm.R0)):
        return -1
    return None


def _linear(t, x):
    """k with t = x - k or t = k - x (sign +1/-1), for integer terms"""
    if t is x:
        return tm.I0, 1
    if t.op != 'add' or t.sort != 'I':
        return None
    for y, k in t.args[1]:
        if y is x and k in (1, -1):
            r = tm.sub(t, tm.scale(k, x))
            if x in r.fv:
                return None
            return (tm.neg(r), 1) if k == 1 else (r, -1)
    return None


def _split_point(cond, x):
    """k such that cond is constant on x < k and on x >= k"""
    if cond.op == 'not':
        return _split_point(cond.args[0], x)
    if cond.op not in ('le', 'lt') or cond.args[0].sort != 'I':
        return None
    l = _linear(cond.args[0], x)
    if l is None:
        return None
    k, sg = l
    # x - k <= 0: true below k+1;  x - k < 0: true below k;  k - x <= 0: true from k;  k - x < 0: true from k+1
    return tm.add(k, tm.I1) if (cond.op == 'le') == (sg == 1) else k


def _split_binders(d):
    """sums and maxima whose body distinguishes x < k from x >= k are split at k"""
    m = {}
    for a in tm.atoms_of(d, lambda y: y.op in ('sum', 'maxagg') and not _bound(y) and y.lvl <= 1):
        x, n, body = tm.open_binder(a)
        for c in tm.find_ites(body):
            for at in tm.bool_atoms(c):
                if x not in at.fv:
                    continue
                k = _split_point(at, x)
                if k is None or _bound(k) or not CTX.entails(tm.le(tm.I0, k)) or not CTX.entails(tm.le(k, n)):
                    continue
                y = tm.fresh('k', 'I')
                parts = []
                for v, n2, b2 in ((x, k, body), (y, tm.sub(n, k), tm.subst(body, {x: tm.add(y, k)}))):
                    mk = CTX.mark()
                    try:
                        CTX.assume(tm.le(tm.I0, v))
                        CTX.assume(tm.lt(v, n2))
                        parts.append((v, n2, CTX.simp(b2)))
                    except Infeasible:
                        pass
                    finally:
                        CTX.undo_facts(mk)
                if a.op == 'sum':
                    m[a] = tm.add(tm.R0, *[tm.mksum(*q) for q in parts])
                elif len(parts) == 1:
                    m[a] = tm.mkmax(*parts[0])
                elif len(parts) == 2 and CTX.entails(tm.lt(tm.I0, k)) and CTX.entails(tm.lt(k, n)):
                    m[a] = tm.tmax(tm.mkmax(*parts[0]), tm.mkmax(*parts[1]))
                break
            if a in m:
                break
    m = {a: b for a, b in m.items() if a is not b}
    return tm.subst_apps(d, m) if m else d


def _merge_binders(d, deadline, depth):
    """sums and maxima that are equal term by term become the same term"""
    m, seen = {}, []
    for a in tm.atoms_of(d, lambda y: y.op in ('sum', 'maxagg') and not _bound(y)):
        for b in seen:
            if a.op != b.op or not (a.args[1] is b.args[1] or CTX.entails(tm.eq(a.args[1], b.args[1]))):
                continue
            x = tm.fresh('sx', 'I')
            n, p, q = a.args[1], tm.open_binder(a, x)[2], tm.open_binder(b, x)[2]
            if same_range(x, n, tm.sub(p, q), deadline, depth - 2) or \
               same_range(x, n, tm.sub(tm.subst(p, {x: tm.sub(tm.sub(n, tm.I1), x)}), q), deadline, depth - 2):
                m[a] = b
                break
        else:
            seen.append(a)
    return tm.subst_apps(d, m) if m else d


def same_range(x, n, d, deadline, depth):
    """d == 0 for all 0 <= x < n"""
    mk = CTX.mark()
    try:
        CTX.assume(tm.le(tm.I0, x))
        CTX.assume(tm.lt(x, n))
        CTX.instantiate(x)
        return screen_zero(d, 3) and zero(d, deadline, depth)
    except Infeasible:
        return True
    finally:
        CTX.undo_facts(mk)


def _roots(d):
    """u + w = 0 where u, w differ in their square roots: opposite signs and u^2 = w^2"""
    try:
        p = norm.expand(d)
    except norm.TooBig:
        return False
    if len(p) < 2 or len(p) > 40 or not any(a.op == 'sqrt' for m in p for a, e in m):
        return False
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        e = dict(m)
        common = {a: k for a, k in common.items() if e.get(a) == k}
    groups = {}
    for m, c in p.items():
        m = tuple((a, e) for a, e in m if a not in common)
        k = tuple((a, e) for a, e in m if a.op == 'sqrt')
        groups.setdefault(k, {})[m] = c
    if len(groups) != 2:
        return False
    signs, terms = [], []
    for k, g in groups.items():
        ms = list(g)
        com = dict(ms[0])
        for m in ms[1:]:
            e = dict(m)
            com = {a: x for a, x in com.items() if e.get(a) == x}
        rest = norm.to_term({tuple((a, e) for a, e in m if a not in com): c for m, c in g.items()})
        s = _sign(rest)
        for a, e in com.items():
            if s is None:
                break
            if e % 2:
                x = _sign(a)
                s = None if x is None else s * x
        if s is None:
            return False
        signs.append(s)
        terms.append(norm.to_term(g))
    return signs[0] != signs[1] and norm.is_zero(tm.sub(tm.mul(terms[0], terms[0]), tm.mul(terms[1], terms[1])))


def _repl(t, old, new):
    memo = {}

    def go(t):
        if t is old:
            return new
        if t.op in ('c', 'v', 'b') or t.lvl:
            if t.lvl:
                return t
            return t
        r = memo.get(t)
        if r is None:
            r = tm.rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def _bound(t):
    return any(v.args[0].startswith('_b') for v in t.fv)


def both(a, d, deadline, depth):
    for c, val in ((a, tm.TRUE), (tm.not_(a), tm.FALSE)):
        mk = CTX.mark()
        try:
            CTX.assume(c)
            CTX.assume(norm.bcanon(c))
            if solve.check(CTX.facts) == 'unsat':
                continue
            if not zero(tm.replace_cond(d, a, val), deadline, depth - 1):
                return False
        except Infeasible:
            pass
        finally:
            CTX.undo_facts(mk)
    return True


def _sums(d, deadline, depth):
    """sum_i m_i * Sum(x<n) b_i  + rest : combine the bodies"""
    if depth <= 0:
        return False
    try:
        p = norm.expand(d)
    except norm.TooBig:
        return False
    groups = {}
    rest = {}
    for m, c in p.items():
        ss = [(a, e) for a, e in m if a.op == 'sum']
        if len(ss) == 1 and ss[0][1] == 1:
            a = ss[0][0]
            others = tuple(q for q in m if q[0] is not a)
            groups.setdefault(a.args[1], []).append((a, others, c))
        else:
            rest[m] = c
    if not groups:
        return False
    # sums whose range splits:  sum(n1+n2)  is not attempted
    if rest and not zero(norm.to_term(rest), deadline, depth - 1):
        return False
    work = []
    for n, items in groups.items():
        # equal cofactors first: each difference of sums vanishes on its own
        by = {}
        for it_ in items:
            by.setdefault(it_[1], []).append(it_)
        if len(by) > 1 and all(len(v) > 1 for v in by.values()) and _sum_groups([(n, v) for v in by.values()], deadline, depth):
            continue
        work.append((n, items))
    return _sum_groups(work, deadline, depth)


def _sum_groups(work, deadline, depth):
    for n, items in work:
        x = tm.fresh('sx', 'I')
        terms = []
        for a, others, c in items:
            _, _, body = tm.open_binder(a, x)
            terms.append(tm.mul(norm.to_term({others: c}), body))
        mk = CTX.mark()
        try:
            CTX.assume(tm.le(tm.I0, x))
            CTX.assume(tm.lt(x, n))
            CTX.instantiate(x)
            if not zero(tm.add(*terms), deadline, depth - 1):
                return False
        except Infeasible:
            pass
        finally:
            CTX.undo_facts(mk)
    return True


# ---------------------------------------------------------------- booleans
def holds(t, deadline, depth=10):
    """t is entailed by the facts"""
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return solve.check(CTX.facts) == 'unsat'
    t = CTX.simp(t)
    if t.op == 'b':
        return t.args[0] or solve.check(CTX.facts) == 'unsat'
    if t in CTX.facts or norm.bcanon(t) in CTX.facts:
        return True
    if t.op == 'and':
        return all(holds(x, deadline, depth) for x in t.args)
    if t.op == 'eq':
        if t.args[0].sort == 'R' and zero(t.args[0], deadline, depth):
            return True
    if t.op in ('le', 'lt') and t.args[0].sort == 'R':
        e = t.args[0]
        if t.op == 'le' and zero(e, deadline, 4):
            return True
        if solve.entails(CTX.facts, t, 1):
            return True
        e2 = norm.canon(e)
        if e2 is not e and solve.entails(CTX.facts, (tm.le if t.op == 'le' else tm.lt)(e2, tm.R0), 1):
            return True
        e3 = tm.neg(e2)
        if tm.nonneg(e3):
            if t.op == 'le':
                return True
        return False
    if t.op == 'forall':
        x, n, body = tm.open_binder(t)
        mk = CTX.mark()
        try:
            CTX.assume(tm.le(tm.I0, x))
            CTX.assume(tm.lt(x, n))
            CTX.instantiate(x)
            return holds(body, deadline, depth - 1)
        except Infeasible:
            return True
        finally:
            CTX.undo_facts(mk)
    if t.op == 'or' and depth > 0:
        if solve.entails(CTX.facts, t, 1):
            return True
        # assume the negation of all but one disjunct
        for k in range(len(t.args)):
            mk = CTX.mark()
            try:
                for j, x in enumerate(t.args):
                    if j != k:
                        CTX.assume(tm.not_(x))
                if solve.check(CTX.facts) == 'unsat':
                    return True
                if holds(t.args[k], deadline, depth - 2):
                    return True
            except Infeasible:
                return True
            finally:
                CTX.undo_facts(mk)
        return False
    if solve.entails(CTX.facts, t, 1):
        return True
    c = norm.bcanon(t)
    if c is not t and solve.entails(CTX.facts, c, 1):
        return True
    return False


def equiv(a, b, deadline, depth=8):
    if a is b or norm.bcanon(a) is norm.bcanon(b):
        return True
    if a.op == b.op and a.op in ('forall', 'exists'):
        n1, n2 = a.args[1], b.args[1]
        if n1 is n2 or solve.entails(CTX.facts, tm.eq(n1, n2)):
            x = tm.fresh('k', 'I')
            _, _, p = tm.open_binder(a, x)
            _, _, q = tm.open_binder(b, x)
            mk = CTX.mark()
            try:
                CTX.assume(tm.le(tm.I0, x))
                CTX.assume(tm.lt(x, n1))
                CTX.instantiate(x)
                if equiv(p, q, deadline, depth - 1):
                    return True
            except Infeasible:
                return True
            finally:
                CTX.undo_facts(mk)
    if a.op == 'not' and b.op == 'not':
        return equiv(a.args[0], b.args[0], deadline, depth)
    for p, q in ((a, b), (b, a)):
        mk = CTX.mark()
        try:
            CTX.assume(p)
            if not holds(q, deadline, depth):
                return False
        except Infeasible:
            pass
        finally:
            CTX.undo_facts(mk)
    return True


# ---------------------------------------------------------------- sampling
def sample_env(seed, gen, consts, facts, tries=60):
    """an environment satisfying the facts, or None"""
    for k in range(tries):
        env = Env((seed, k), gen=gen)
        try:
            if all(evaluate(f, env) for f in facts):
                return env
        except (Undefined, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            continue
    return None


def model_env(facts, gen, seed=0):
    m = solve.model([f for f in facts if f.op not in ('forall', 'exists')])
    if m is None:
        return None
    vs, fns = m
    vs = {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vs.items() if v is not None}
    f2 = {}
    for nm, (tab, de) in fns.items():
        f2[nm] = ({tuple(float(x) if isinstance(x, Fraction) else x for x in k): (float(v) if isinstance(v, Fraction) else v)
                   for k, v in tab.items()}, None)
    return Env(seed, vars=vs, fns=f2, gen=gen)


_ENVS = {}


def envs_for(facts, gen, n):
    """valuations satisfying the facts (cached per fact set)"""
    key = tuple(sorted({f.id for f in facts}))
    st = _ENVS.get(key)
    if st is None:
        if len(_ENVS) > 400:
            _ENVS.clear()
        st = _ENVS[key] = {'envs': [], 'tried': 0, 'model': False, 'misses': 0}
    gen_ok = True
    while len(st['envs']) < n and st['tried'] < n and st['misses'] < 3:
        env = sample_env(st['tried'], gen, (), facts, 25)
        st['tried'] += 1
        if env is None:
            st['misses'] += 1
        else:
            st['envs'].append(env)
    for e in st['envs']:
        e.gen = gen
        yield e
    if len(st['envs']) < 3:
        if st['model'] is False:
            st['model'] = model_env(facts, gen)
            env = st['model']
            if env is not None:
                try:
                    if not all(evaluate(f, env) for f in facts):
                        st['model'] = None
                except (Undefined, OverflowError, ZeroDivisionError, RecursionError, ValueError):
                    st['model'] = None
        if st['model'] is not None:
            st['model'].gen = gen
            yield st['model']


def find_cex(facts, bad, gen, n=12, seeds=(0,)):
    """environment with all facts and bad(env) true; bad may raise Undefined"""
    for env in envs_for(facts, gen, n):
        try:
            if bad(env):
                return env
        except (Undefined, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            continue
    return None


def rel_bad(a, b, tol=1e-7):
    def bad(env):
        x, y = evaluate(a, env), evaluate(b, env)
        return abs(x - y) > tol * max(1.0, abs(x), abs(y))
    return bad


def prove_eq(a, b, gen=None, budget=None):
    """under CTX.facts"""
    CTX.strides = True
    try:
        return _prove_eq(a, b, gen, budget)
    finally:
        CTX.strides = False


def _prove_eq(a, b, gen, budget):
    dl = time.time() + (budget or BUDGET[0])
    if a is b:
        return Res('proved', 'syntactic')
    if a.sort == 'B' or b.sort == 'B':
        from .core import tob
        a, b = tob(a), tob(b)
        cex = find_cex(CTX.facts, lambda e: bool(evaluate(a, e)) != bool(evaluate(b, e)), gen or {})
        if cex is not None:
            return Res('refuted', 'sampling', cex)
        if equiv(a, b, dl):
            return Res('proved', 'smt')
        return Res('unknown', why='boolean equivalence not shown')
    if a.sort != b.sort:
        a, b = tm.toreal(a), tm.toreal(b)
    if a is b:
        return Res('proved', 'syntactic')
    d = tm.sub(a, b)
    if d.op == 'c':
        if d.args[0] == 0:
            return Res('proved', 'syntactic')
    try:
        if d.sort == 'R' and norm.canon(d) is tm.R0:
            return Res('proved', 'ring')
    except norm.TooBig:
        pass
    cex = find_cex(CTX.facts, rel_bad(a, b), gen or {})
    if cex is not None:
        return Res('refuted', 'sampling', cex)
    try:
        if zero(d, dl):
            return Res('proved', 'cases')
    except norm.TooBig:
        return Res('unknown', why='term too large')
    return Res('unknown', why='time' if time.time() > dl else 'not shown')


def prove_true(t, gen=None, budget=None):
    dl = time.time() + (budget or BUDGET[0])
    if t is tm.TRUE:
        return Res('proved', 'syntactic')
    cex = find_cex(CTX.facts, lambda e: not evaluate(t, e), gen or {})
    if cex is not None:
        return Res('refuted', 'sampling', cex)
    if _contradiction(min(dl, time.time() + 10)):
        return Res('proved', 'contradiction')
    if holds(t, dl):
        return Res('proved', 'smt')
    if solve.check(CTX.facts) == 'unsat':
        return Res('proved', 'smt')
    if _known_bound(t, min(dl, time.time() + 20)):
        return Res('proved', 'rewriting')
    return Res('unknown', why='not shown')


def _contradiction(deadline):
    """a fact says |x| is at least some positive constant, where x is zero"""
    for f in list(CTX.facts):
        if f.op not in ('le', 'lt'):
            continue
        c, its = tm._lin(f.args[0])
        if c > 0 and len(its) == 1 and its[0][0].op == 'abs' and its[0][1] < 0 and time.time() < deadline:
            CTX.strides = True
            try:
                if zero(CTX.simp(its[0][0].args[0]), deadline):
                    return True
            finally:
                CTX.strides = False
    return False


def _known_bound(t, deadline):
    """the inequality t is a known one in other words"""
    t = norm.bcanon(CTX.simp(t))
    if t.op not in ('le', 'lt') or t.args[0].sort != 'R':
        return False
    for f in list(CTX.facts):
        if time.time() > deadline:
            break
        if f.op == 'or':
            # only one disjunct is possible
            f = _unit(f)
        if f is not None and f.op in ('le', 'lt') and f.args[0].sort == 'R' and (t.op == 'le' or f.op == 'lt'):
            g = f.args[0]
            for sq in (False, True):
                if sq:
                    # 0 < c <= Y gives c^2 <= Y^2
                    c = g.args[0] if g.op == 'add' else 0
                    if c == 0:
                        continue
                    y = tm.sub(tm.const(c, 'R'), g)
                    if c < 0:
                        # 0 <= Y <= c gives Y^2 <= c^2
                        y = tm.scale(-1, y)
                        if not sign.holds(CTX.facts, tm.le(tm.R0, y), min(deadline, time.time() + 3), False):
                            continue
                    g = tm.scale(1 if c > 0 else -1, tm.sub(tm.const(c * c, 'R'), tm.mul(y, y)))
                k = _ratio(t.args[0], g)
                if k and zero(CTX.simp(tm.sub(t.args[0], tm.mul(tm.const(k, 'R'), g))), min(deadline, time.time() + 4)):
                    return True
    return False


def _unit(f):
    if not all(x.op in ('le', 'lt', 'eq', 'not') for x in f.args) or len(f.args) > 4:
        return None
    live = [x for x in f.args if not (solve.int_only(x) and solve.entails(CTX.facts, tm.not_(x)))]
    return live[0] if len(live) == 1 else None


def known_nonzero(e, deadline):
    """a known inequality says so, in other words"""
    e = CTX.simp(e)
    for f in CTX.facts:
        if time.time() > deadline:
            break
        g = f.args[0] if f.op == 'lt' else f.args[0].args[0] if f.op == 'not' and f.args[0].op == 'eq' else None
        if g is None or g.sort != 'R':
            continue
        for k in (1, -1):
            if _ratio(tm.scale(k, e), g):
                r = _ratio(tm.scale(k, e), g)
                if zero(CTX.simp(tm.sub(tm.scale(k, e), tm.mul(tm.const(r, 'R'), g))), min(deadline, time.time() + 4)):
                    return True
        # e >= c > 0 follows from g = k e + positive constant < 0
        for c, d in _shifts(e, g):
            if zero(CTX.simp(tm.sub(g, d)), min(deadline, time.time() + 4)):
                return True
    return False


def _shifts(e, g):
    """(c, k e + c) with c > 0 numerically equal to g"""
    from fractions import Fraction
    vals = []
    for s in range(6):
        try:
            env = Env(2000 + s)
            vals.append((evaluate(e, env), evaluate(g, env)))
        except (Undefined, OverflowError, ZeroDivisionError, RecursionError):
            pass
    if len(vals) < 2:
        return
    for k in (-1, 1):
        c = [y - k * x for x, y in vals]
        if max(c) - min(c) < 1e-9 * (1 + max(abs(v) for p in vals for v in p)):
            q = Fraction(c[0]).limit_denominator(100000)
            if q > 0:
                yield q, tm.add(tm.scale(k, e), tm.const(q, 'R'))


def _ratio(a, b):
    """a plausible positive constant k with a = k b"""
    from fractions import Fraction
    where = [f for f in CTX.facts if solve.int_only(f) and f.op != 'forall']
    for env in list(envs_for(where, {}, 2)) + [Env(2000 + s) for s in range(2)]:
        try:
            x, y = evaluate(a, env), evaluate(b, env)
            if abs(y) > 1e-9:
                k = Fraction(x / y).limit_denominator(1000)
                if k > 0 and abs(float(k) - x / y) < 1e-7 * abs(x / y):
                    return k
        except (Undefined, OverflowError, ZeroDivisionError, RecursionError):
            pass
    return None
