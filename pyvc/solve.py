"""z3 back end for linear / boolean side conditions, plus numeric evaluation of terms."""
import math
from fractions import Fraction
import z3
from . import terms as tm
from . import norm

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'unknown': 0}
TIMEOUT = [1500]
_conv = {}
_side = {}


_convlin = {}
_mode = [False]      # True: real products are opaque constants


def z(t):
    cv = _convlin if _mode[0] else _conv
    r = cv.get(t)
    if r is None:
        r = _z(t)
        cv[t] = r
    return r


def _q(v):
    return z3.Q(v.numerator, v.denominator)


_sorts = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}


def _z(t):
    op, a = t.op, t.args
    if op == 'c':
        return z3.IntVal(int(a[0])) if t.sort == 'I' and a[0].denominator == 1 else _q(a[0])
    if op == 'b':
        return z3.BoolVal(a[0])
    if op == 'v':
        return z3.Const(a[0], _sorts[t.sort])
    if op == 'add':
        c, its = a
        den = 1
        r = None
        for x, k in its:
            zx = z(x)
            if t.sort == 'I':
                y = zx if k == 1 else z3.IntVal(int(k)) * zx if k.denominator == 1 else None
                if y is None:
                    y = z3.ToInt(_q(k) * z3.ToReal(zx))
            else:
                y = zx if k == 1 else _q(k) * zx
            r = y if r is None else r + y
        if c:
            r = r + (z3.IntVal(int(c)) if t.sort == 'I' else _q(c))
        return r
    if op == 'mul':
        r = None
        if t.sort == 'I':
            for b, e in a:
                for _ in range(e):
                    r = z(b) if r is None else r * z(b)
            return r
        if _mode[0] or any(e < 0 for _, e in a) or len(a) > 4 or sum(abs(e) for _, e in a) > 4:
            return z3.Const('@m%d' % t.id, z3.RealSort())
        for b, e in a:
            for _ in range(e):
                r = z(b) if r is None else r * z(b)
        return r
    if op == 'app':
        zs = [z(x) for x in a[1:]]
        f = z3.Function(a[0] + '/' + ''.join(x.sort for x in a[1:]), *([_sorts[x.sort] for x in a[1:]] + [_sorts[t.sort]]))
        return f(*zs)
    if op == 'toreal':
        return z3.ToReal(z(a[0]))
    if op == 'ite':
        return z3.If(z(a[0]), z(a[1]), z(a[2]))
    if op == 'idiv':
        return z(a[0]) / z(a[1])
    if op == 'mod':
        return z(a[0]) % z(a[1])
    if op == 'lt':
        x = z(a[0])
        return x < 0
    if op == 'le':
        return z(a[0]) <= 0
    if op == 'eq':
        return z(a[0]) == 0
    if op == 'not':
        return z3.Not(z(a[0]))
    if op == 'and':
        return z3.And(*[z(x) for x in a])
    if op == 'or':
        return z3.Or(*[z(x) for x in a])
    if op in ('forall', 'exists'):
        x, n, body = a
        v = z(x)
        rng = z3.And(v >= 0, v < z(n))
        if op == 'forall':
            return z3.ForAll([v], z3.Implies(rng, z(body)))
        return z3.Exists([v], z3.And(rng, z(body)))
    if op == 'abs':
        x = z(a[0])
        return z3.If(x >= 0, x, -x)
    # sqrt, sin, ... : uninterpreted function of the canonical argument, with side facts
    f = z3.Function('@' + op, *([z3.RealSort()] * (len(a) + 1)))
    if op == 'sum' or op == 'maxagg':
        return z3.Const('@s%d' % t.id, z3.RealSort())
    return f(*[z(x) for x in a])


def _intlin(t):
    """linear combination of integers"""
    if t.op == 'toreal' or t.op == 'c':
        return True
    return t.op == 'add' and all(x.op == 'toreal' for x, _ in t.args[1])


_clr = {}


def _cleared(t):
    """(D, e*D <= 0) for an inequality e <= 0 with one integer-valued denominator D (equivalent if D > 0)"""
    r = _clr.get(t, 0)
    if r == 0:
        r = None
        try:
            if t.size < 400:
                p = norm.expand(t.args[0])
                ds = {}
                for m in p:
                    for a, e in m:
                        if e < 0:
                            ds[a] = max(ds.get(a, 0), -e)
                if len(ds) == 1 and len(p) < 40:
                    (D, k), = ds.items()
                    if k == 1 and _intlin(D):
                        q = norm.pmul({m: c for m, c in p.items() if dict(m).get(D, 0) < 0}, {((D, 1),): Fraction(1)})
                        q = norm.padd(q, norm.pmul({m: c for m, c in p.items() if dict(m).get(D, 0) >= 0}, norm.expand(D)))
                        e2 = norm.to_term(q)
                        t2 = {'le': tm.le, 'lt': tm.lt, 'eq': tm.eq}[t.op](e2, tm.R0)
                        if t2 is not t:
                            r = (D, t2)
        except norm.TooBig:
            pass
        _clr[t] = r
    return r


def side_facts(t, out, seen):
    """range facts for function applications inside t"""
    if t in seen:
        return
    seen.add(t)
    if not t.lvl:
        if t.op == 'sqrt':
            s = z(t)
            out.append(s >= 0)
            if t.args[0].size < 12 and not _mode[0]:
                out.append(s * s == z(t.args[0]))
        elif t.op in ('sin', 'cos'):
            s = z(t)
            out.append(s <= 1)
            out.append(s >= -1)
        elif t.op == 'exp':
            out.append(z(t) > 0)
        elif t is tm.PI:
            out.append(z(t) > _q(Fraction(314159, 100000)))
            out.append(z(t) < _q(Fraction(31416, 10000)))
        elif t.op == 'mul' and t.sort == 'R':
            if tm.nonneg(t):
                out.append(z(t) >= 0)
            if len(t.args) == 2 and sorted(e for _, e in t.args) == [-1, 1]:
                # ratio a/D
                a, D = (t.args[0][0], t.args[1][0]) if t.args[0][1] == 1 else (t.args[1][0], t.args[0][0])
                if _intlin(a) and _intlin(D):
                    x, a, D = z(t), z(a), z(D)
                    out.append(z3.Implies(D > 0, z3.And((a >= 0) == (x >= 0), (a <= 0) == (x <= 0), (a <= D) == (x <= 1), (a >= D) == (x >= 1))))
        if t.op in ('le', 'lt', 'eq') and t.args[0].sort == 'R':
            c = _cleared(t)
            if c is not None:
                D, t2 = c
                out.append(z3.Implies(z(D) > 0, z(t) == z(t2)))
                side_facts(t2, out, seen)
                side_facts(D, out, seen)
    for s in tm.subterms(t):
        side_facts(s, out, seen)


_is_int = {}


def int_only(t):
    r = _is_int.get(t)
    if r is None:
        r = True
        if t.sort == 'R' or t.op in ('toreal', 'sum'):
            r = False
        else:
            for s in tm.subterms(t):
                if not int_only(s):
                    r = False
                    break
        _is_int[t] = r
    return r


_memo = {}
RLIMIT = [1500000]       # deterministic z3 resource limit per query


def _solver(fl, rlimit, linear):
    s = z3.Solver()
    s.set('rlimit', rlimit)
    s.set('timeout', 20000)
    sf, seen = [], set()
    _mode[0] = linear
    try:
        for f in fl:
            s.add(z(f))
            side_facts(f, sf, seen)
    finally:
        _mode[0] = False
    for f in sf:
        s.add(f)
    return s


def _nonlinear(t):
    r = _nl.get(t)
    if r is None:
        r = (t.op == 'mul' and t.sort == 'R') or any(_nonlinear(x) for x in tm.subterms(t))
        _nl[t] = r
    return r


_nl = {}


def check(facts, effort=0):
    """'sat' | 'unsat' | 'unknown' for the conjunction.  effort 0: real products are opaque ('sat' then means 'not refuted')"""
    fs = tuple(sorted({f.id: f for f in facts}.items()))
    for _, f in fs:
        if f is tm.FALSE:
            return 'unsat'
    fl = [f for _, f in fs if f is not tm.TRUE]
    if not fl:
        return 'sat'
    q = [f for f in fl if _quantified(f)]
    rl = RLIMIT[0]
    if q and len(q) < len(fl):
        # instances of quantified facts are added by the engine: try without the quantified facts first
        if check([f for f in fl if not _quantified(f)], effort) == 'unsat':
            return 'unsat'
        rl //= QCUT[0]
    key = tuple(i for i, _ in fs)
    nl = any(_nonlinear(f) for f in fl)
    r = _query(key, fl, True if nl else False, rl)
    if r == 'unsat' or not nl or not effort:
        return r
    return _query(key, fl, False, int(rl * effort))


QCUT = [6]
_qf = {}


def _quantified(t):
    r = _qf.get(t)
    if r is None:
        r = t.op in ('forall', 'exists') or any(_quantified(x) for x in tm.subterms(t))
        _qf[t] = r
    return r


class _No(Exception):
    pass


def _iev(t, m, memo):
    """value of an integer/boolean term under an integer assignment"""
    r = memo.get(t)
    if r is None:
        r = memo[t] = _iev2(t, m, memo)
    return r


def _iev2(t, m, memo):
    op, a = t.op, t.args
    if op in ('c', 'b'):
        return a[0]
    if op == 'v':
        v = m.get(a[0])
        if v is None:
            raise _No()
        return v
    if op == 'add' and t.sort == 'I':
        return sum((k * _iev(x, m, memo) for x, k in a[1]), a[0])
    if op == 'mul' and t.sort == 'I':
        r = 1
        for x, e in a:
            r *= _iev(x, m, memo) ** e
        return r
    if op in ('le', 'lt', 'eq'):
        v = _iev(a[0], m, memo)
        return v <= 0 if op == 'le' else v < 0 if op == 'lt' else v == 0
    if op == 'not':
        return not _iev(a[0], m, memo)
    if op == 'and':
        return all(_iev(x, m, memo) for x in a)
    if op == 'or':
        return any(_iev(x, m, memo) for x in a)
    if op in ('idiv', 'mod'):
        x, y = _iev(a[0], m, memo), _iev(a[1], m, memo)
        if y == 0:
            raise _No()
        return x // y if op == 'idiv' else x % y
    if op == 'ite':
        return _iev(a[1] if _iev(a[0], m, memo) else a[2], m, memo)
    raise _No()


_pool = []


def _pool_sat(fl):
    for i in range(len(_pool) - 1, -1, -1):
        m, memo = _pool[i]
        try:
            if all(_iev(f, m, memo) for f in fl):
                if i < len(_pool) - 8:
                    _pool.append(_pool.pop(i))
                return True
        except _No:
            pass
    return False


def _pool_add(s):
    try:
        mod = s.model()
    except z3.Z3Exception:
        return
    m = {}
    for d in mod.decls():
        if d.arity() == 0 and z3.is_int_value(mod[d]):
            m[d.name()] = Fraction(mod[d].as_long())
        elif d.arity() == 0 and (z3.is_true(mod[d]) or z3.is_false(mod[d])):
            m[d.name()] = z3.is_true(mod[d])
    _pool.append((m, {}))
    if len(_pool) > 60:
        del _pool[:20]


def _query(key, fl, linear, rl):
    import time
    k = (key, linear, rl)
    r = _memo.get(k)
    if r is None:
        ints = all(int_only(f) for f in fl)
        if ints and _pool_sat(reversed(fl) if False else fl):
            STATS['model_hits'] = STATS.get('model_hits', 0) + 1
            _memo[k] = 'sat'
            return 'sat'
        s = _solver(fl, rl, linear)
        t0 = time.time()
        r = str(s.check())
        if ints and r == 'sat':
            _pool_add(s)
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        if r == 'unknown':
            STATS['unknown'] += 1
        _memo[k] = r
    return r


def _bounds_of(v, facts):
    lo, hi = [], []
    for f in facts:
        if f.op == 'le' and f.args[0].sort == 'I' and v in f.args[0].fv:
            c, its = tm._lin(f.args[0])
            its = dict(its)
            k = its.pop(v, None)
            if k is None or abs(k) != 1 or any(v in x.fv for x in its):
                continue
            rest = tm.from_lin(c, its, 'I')
            if k == 1:
                hi.append(tm.neg(rest))
            else:
                lo.append(rest)
    return lo, hi


def _bounds_index(v, facts):
    """bounds of an integer variable, or of a quotient of one by a positive number"""
    if v.op == 'v':
        return _bounds_of(v, facts)
    x, d = v.args
    lo, hi = _bounds_of(x, facts)
    if x.op != 'v' or not lo or not hi or not entails(facts, tm.lt(tm.I0, d)):
        return [], []
    l2 = [b for b in lo if b is tm.I0]
    h2 = []
    for b in hi:
        q, r = tm._divide_out(tm.add(b, tm.I1), d)
        if r is tm.I0:
            h2.append(tm.sub(q, tm.I1))
    return l2, h2


def _occurs(a, t):
    if t is a:
        return True
    return t.size > a.size and any(_occurs(a, x) for x in tm.subterms(t))


_vmemo = {}


def vertex(facts, goal, effort, depth=2):
    """e <= 0 with e affine in an integer index between two bounds: enough at both bounds"""
    if goal.op not in ('le', 'lt') or goal.args[0].sort != 'R' or goal.size > 300:
        return False
    try:
        p = norm.expand(goal.args[0])
    except norm.TooBig:
        return False
    atoms = {}
    for m in p:
        for a, e in m:
            if a.op == 'toreal' and (a.args[0].op == 'v' or a.args[0].op == 'idiv'):
                atoms[a] = max(atoms.get(a, 0), e if e > 0 else 99)
    if not any(len(m) > 1 for m in p):
        return False
    for a, e in sorted(atoms.items(), key=lambda x: x[0].id):
        v = a.args[0]
        if e != 1 or any(v is b or v in b.fv or _occurs(a, b) for m in p for b, _ in m if b is not a):
            continue
        lo, hi = _bounds_index(v, facts)
        if not lo or not hi:
            continue

        def ok(x):
            q = tm.add(norm.to_term({m: c for m, c in p.items() if not any(b is a for b, _ in m)}),
                       tm.mul(tm.toreal(x), norm.to_term({tuple(y for y in m if y[0] is not a): c for m, c in p.items() if any(b is a for b, _ in m)})))
            g = (tm.le if goal.op == 'le' else tm.lt)(norm.canon(q), tm.R0)
            return entails(facts, g, max(effort, 1), depth - 1)
        one = tm.const(Fraction(1), 'I')
        for cand, step in ((lo, tm.neg(one)), (hi, one)):
            good = False
            for x in sorted(set(cand), key=lambda y: (y.op != 'c', y.size, y.id))[:3]:
                if ok(x) or ok(tm.add(x, step)):
                    good = True
                    break
            if not good:
                break
        else:
            return True
    return False


def entails(facts, goal, effort=0, depth=2):
    if _entails(facts, goal, effort):
        return True
    if depth > 0 and goal.op in ('le', 'lt') and goal.args[0].sort == 'R' and any(x.op == 'v' and x.sort == 'I' for x in goal.fv):
        k = (tuple(sorted(f.id for f in facts)), goal, depth)
        r = _vmemo.get(k)
        if r is None:
            _vmemo[k] = False
            r = _vmemo[k] = vertex(list(facts), goal, effort, depth)
        return r
    return False


def _entails(facts, goal, effort=0):
    if goal is tm.TRUE:
        return True
    if goal is tm.FALSE:
        return check(list(facts), effort) == 'unsat'
    if goal in facts:
        return True
    ng = tm.not_(goal)
    if int_only(goal):
        facts = [f for f in facts if int_only(f) or not _quantified(f)]
        fi = [f for f in facts if int_only(f)]
        r = check(fi + [ng], effort)
        if r == 'unsat':
            return True
        if len(fi) == len(facts):
            return False
        if r == 'sat' and not any(relevant(f, goal) for f in facts if not int_only(f)):
            return False
    if goal.sort == 'B' and goal.op != 'eq' and len(facts) > 12:
        at = _apps(goal)
        sub = [f for f in facts if f.fv <= goal.fv and not _quantified(f) and _apps(f) <= at]
        if sub and len(sub) < len(facts) and check(sub + [ng], effort) == 'unsat':
            return True
    return check(list(facts) + [ng], effort) == 'unsat'


_appc = {}


def _apps(t):
    """applications (array elements, functions) occurring in t"""
    r = _appc.get(t)
    if r is None:
        r = frozenset([t]) if t.op == 'app' else frozenset().union(*[_apps(x) for x in tm.subterms(t)]) if t.args else frozenset()
        if t.op in ('cos', 'sin', 'sqrt', 'abs', 'tan', 'atan2', 'acos', 'asin', 'log', 'exp', 'pow'):
            r = r | {t}
        _appc[t] = r
    return r


def relevant(f, goal):
    return bool(f.fv & goal.fv)


def feasible(facts, extra=None):
    """False only if provably infeasible"""
    fs = list(facts) + ([extra] if extra is not None else [])
    if extra is not None and int_only(extra):
        fs = [f for f in fs if int_only(f) or not _quantified(f)]
        facts = [f for f in facts if int_only(f) or not _quantified(f)]
        fi = [f for f in fs if int_only(f)]
        if check(fi) == 'unsat':
            return False
        if not any(relevant(f, extra) for f in facts if not int_only(f)):
            return True
    if extra is not None and not int_only(extra) and len(facts) > 12:
        at = _apps(extra)
        sub = [f for f in facts if f.fv <= extra.fv and not _quantified(f) and _apps(f) <= at]
        if sub and len(sub) < len(facts) and check(sub + [extra]) == 'unsat':
            return False
    if check(fs) == 'unsat':
        return False
    if extra is not None and extra.op in ('le', 'lt') and extra.args[0].sort == 'R':
        return not entails(facts, tm.not_(extra))
    return True


def model(facts):
    """z3 model as ({var name: value}, {fname: {argtuple: value}}) or None"""
    s = _solver([f for f in facts if f is not tm.TRUE], 300000, False)
    if s.check() != z3.sat:
        return None
    m = s.model()

    def val(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None
    vs, fns = {}, {}
    for d in m.decls():
        nm = d.name()
        if d.arity() == 0:
            if not nm.startswith('@'):
                vs[nm] = val(m[d])
        elif not nm.startswith('@'):
            nm = nm.rsplit('/', 1)[0]
            fi = m[d]
            try:
                tab = {}
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    tab[tuple(val(e.arg_value(j)) for j in range(d.arity()))] = val(e.value())
                fns[nm] = (tab, val(fi.else_value()))
            except Exception:
                pass
    return vs, fns


# ---------------------------------------------------------------- numeric evaluation
from .env import Env, Undefined, DEFNS


def evaluate(t, env, memo=None, bind=None):
    if memo is None:
        memo = {}
    return _ev(t, env, memo, bind or {})


def _ev(t, env, memo, bind):
    op, a = t.op, t.args
    if op == 'c':
        return int(a[0]) if t.sort == 'I' else float(a[0])
    if op == 'b':
        return a[0]
    if op == 'v':
        if t in bind:
            return bind[t]
        if t is tm.PI:
            return math.pi
        return env.var(t)
    usememo = not (bind and t.fv & frozenset(bind))
    if usememo and t in memo:
        return memo[t]
    r = _ev2(t, op, a, env, memo, bind)
    if usememo:
        memo[t] = r
    return r


def _ev2(t, op, a, env, memo, bind):
    ev = lambda x: _ev(x, env, memo, bind)
    if op == 'add':
        c, its = a
        if t.sort == 'I':
            s = c
            for x, k in its:
                s += k * ev(x)
            return int(s)
        s = float(c)
        for x, k in its:
            s += float(k) * ev(x)
        return s
    if op == 'mul':
        s = 1 if t.sort == 'I' else 1.0
        for b, e in a:
            v = ev(b)
            if e < 0 and v == 0:
                raise Undefined()
            try:
                s *= v ** e
            except OverflowError:
                raise Undefined()
        return s
    if op == 'app':
        return env.app(a[0], tuple(ev(x) for x in a[1:]), t.sort)
    if op == 'toreal':
        return float(ev(a[0]))
    if op == 'ite':
        return ev(a[1]) if ev(a[0]) else ev(a[2])
    if op == 'idiv':
        d = ev(a[1])
        if d == 0:
            raise Undefined()
        return ev(a[0]) // d
    if op == 'mod':
        d = ev(a[1])
        if d == 0:
            raise Undefined()
        return ev(a[0]) % d
    if op == 'lt':
        return ev(a[0]) < 0
    if op == 'le':
        return ev(a[0]) <= 0
    if op == 'eq':
        v = ev(a[0])
        return abs(v) < 1e-12 if t.args[0].sort == 'R' else v == 0
    if op == 'not':
        return not ev(a[0])
    if op == 'and':
        return all(ev(x) for x in a)
    if op == 'or':
        return any(ev(x) for x in a)
    if op in ('sum', 'forall', 'exists', 'maxagg'):
        b, n, body = a
        nn = ev(n)
        if nn > 200:
            raise Undefined()
        vals = []
        for i in range(nn):
            bb = dict(bind)
            bb[b] = i
            vals.append(_ev(body, env, memo, bb))
        if op == 'sum':
            return math.fsum(vals)
        if op == 'maxagg':
            if not vals:
                raise Undefined()
            return max(vals)
        return all(vals) if op == 'forall' else any(vals)
    v = [ev(x) for x in a]
    try:
        if op == 'sqrt':
            if v[0] < 0:
                if v[0] > -1e-12:
                    return 0.0
                raise Undefined()
            return math.sqrt(v[0])
        if op == 'abs':
            return abs(v[0])
        if op == 'rpow':
            if v[0] <= 0:
                raise Undefined()
            return v[0] ** v[1]
        return {'sin': math.sin, 'cos': math.cos, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
                'atan2': math.atan2, 'log': math.log, 'exp': math.exp, 'floor': math.floor}[op](*v)
    except (ValueError, OverflowError):
        raise Undefined()
