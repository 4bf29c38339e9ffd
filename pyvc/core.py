"""Symbolic-execution core: context (facts), path explorer, scalar values, mutable cells with an undo trail."""
from fractions import Fraction
import itertools
from . import terms as tm
from . import solve, norm
from .terms import T


class Unsupported(BaseException):
    """construct outside the verifier's subset: the function is left undecided, never an alarm"""


class Infeasible(BaseException):
    pass


class PathLimit(Unsupported):
    pass


_ver = itertools.count(1)
_birth = itertools.count(1)


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.facts = []
        self.version = next(_ver)
        self.explorers = []
        self.trail = []          # (cell, old_state)
        self.sim_memo = {}
        self.strides = False     # bring integer comparisons into a normal form (while comparing values)
        self.spec_depth = 0
        self.defs = []           # definedness obligations (what, condition, facts)
        self.born = {}           # id -> (object, symbolic depth at construction)
        self.loop_obls = []      # inductive steps discharged
        self.executed = set()
        self.symdepth = 0
        self.ndecide = 0
        self.contracts = {}
        self.calls = {}

    # ---- facts
    def assume(self, t):
        if isinstance(t, S):
            t = t.t
        if t is tm.TRUE:
            return
        if t is tm.FALSE:
            raise Infeasible()
        if t.op == 'and':
            for x in t.args:
                self.assume(x)
            return
        self.facts.append(t)
        self.version = next(_ver)

    def mark(self):
        return (len(self.facts), self.version, len(self.trail), next(_birth))

    def instantiate(self, *idx, flat=False):
        """add instances of the universally quantified facts at the given index terms"""
        new, flats = [], []
        have = set(self.facts)
        for f in self.facts:
            if f.op != 'forall':
                continue
            x, n, body = tm.open_binder(f)
            if flat and body.op == 'forall':
                flats += self._flat_instances(x, n, body, idx, have)
            for i in list(idx) + _quotient_instances(x, body, idx):
                g = tm.or_(tm.lt(i, tm.I0), tm.le(n, i), tm.subst(body, {x: i}))
                if g is not tm.TRUE and g is not tm.FALSE and g not in have:
                    new.append(g)
        new = [self.simp(g) for g in new]
        for g in new + flats:
            if g is not tm.TRUE and g not in have:
                have.add(g)
                self.assume(g)

    def _flat_instances(self, x, n1, inner, idx, have):
        """instances of  forall x < n1. forall y < n2. body  at x = i // n2, y = i % n2 for a flat index i in [0, n1 n2)"""
        y, n2, body = tm.open_binder(inner)
        if x in n2.fv or n2.op == 'c' or n1.op == 'c':
            return []
        flat = tm.add(tm.mul(x, n2), y)
        out = []
        for i in idx:
            if i.op != 'v' or tm.le(tm.add(tm.sub(i, tm.mul(n1, n2)), tm.I1), tm.I0) not in have or not self.entails(tm.lt(tm.I0, n2)):
                continue
            if not _has_index(body, flat):
                continue
            q, r = tm.idiv(i, n2), tm.mod(i, n2)
            out += [tm.le(tm.add(q, tm.I1), n1), tm.le(tm.mul(tm.add(q, tm.I1), n2), tm.mul(n1, n2)), tm.le(tm.I0, q), tm.le(tm.I0, r), tm.lt(r, n2),
                    tm.eq(i, tm.add(tm.mul(q, n2), r)), self.simp(tm.subst(tm.subst(body, {x: q}), {y: r}))]
        return [g for g in out if g is not tm.TRUE]

    def undo_facts(self, mark):
        if len(self.facts) != mark[0]:
            del self.facts[mark[0]:]
            self.version = mark[1]

    def effects(self, mark):
        """cells older than mark that were modified since mark -> current state"""
        out = {}
        for c, _ in self.trail[mark[2]:]:
            if c.birth < mark[3]:
                out[c] = c.state
        return out

    def undo(self, mark):
        while len(self.trail) > mark[2]:
            c, old = self.trail.pop()
            if c.birth < mark[3]:
                c.state = old
        self.undo_facts(mark)

    # ---- queries
    def entails(self, t):
        t = self.simp(t)
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        return solve.entails(self.facts, t)

    def simp(self, t):
        """simplify idiv/mod/ite/max under the facts"""
        if t.op in ('c', 'v', 'b'):
            return t
        key = (self.version, t, self.strides)
        r = self.sim_memo.get(key)
        if r is None:
            r = self._simp(t)
            self.sim_memo[key] = r
        return r

    def _simp(self, t):
        if not _has_simp(t):
            return t
        if t.op in ('sum', 'forall', 'exists', 'maxagg'):
            x, n, body = tm.open_binder(t)
            n = self.simp(n)
            m = len(self.facts), self.version
            self.assume(tm.le(tm.I0, x))
            try:
                self.assume(tm.lt(x, n))
                body = self.simp(body)
            except Infeasible:
                pass
            finally:
                del self.facts[m[0]:]
                self.version = m[1]
            return {'sum': tm.mksum, 'forall': tm.forall, 'exists': tm.exists, 'maxagg': tm.mkmax}[t.op](x, n, body)
        if t.op == 'ite':
            c = self.simp(t.args[0])
            if c is tm.TRUE:
                return self.simp(t.args[1])
            if c is tm.FALSE:
                return self.simp(t.args[2])
            if solve.int_only(c) or c in self.facts or tm.not_(c) in self.facts:
                if solve.entails(self.facts, c):
                    return self.simp(t.args[1])
                if solve.entails(self.facts, tm.not_(c)):
                    return self.simp(t.args[2])
            return tm.ite(c, self.simp(t.args[1]), self.simp(t.args[2]))
        r = tm.rebuild(t, self.simp)
        if r.op == 'idiv':
            a, b = r.args
            if self._ent(tm.and_(tm.le(tm.I0, a), tm.lt(a, b))):
                return tm.I0
            # peel:  c0 + rest with rest divisible handled by the constructor
            if self._ent(tm.and_(tm.le(b, a), tm.lt(a, tm.add(b, b)))):
                return tm.I1
            if self._ent(tm.and_(tm.le(tm.neg(b), a), tm.lt(a, tm.I0))):
                return tm.const(-1, 'I')
        elif r.op == 'mod':
            a, b = r.args
            if self._ent(tm.and_(tm.le(tm.I0, a), tm.lt(a, b))):
                return a
            if self._ent(tm.and_(tm.le(b, a), tm.lt(a, tm.add(b, b)))):
                return tm.sub(a, b)
            if self._ent(tm.and_(tm.le(tm.neg(b), a), tm.lt(a, tm.I0))):
                return tm.add(a, b)
        elif r.sort == 'B' and r.op in ('le', 'lt', 'eq') and solve.int_only(r):
            if solve.entails(self.facts, r):
                return tm.TRUE
            if solve.entails(self.facts, tm.not_(r)):
                return tm.FALSE
            if self.strides:
                return self._unstride(r)
        return r

    def _unstride(self, r):
        """normal form of an undecided integer comparison: an equation that is one end of a range becomes an inequality;
        A + s B <= 0 with s > 0 becomes B <= (-A) // s"""
        e = r.args[0]
        if r.op == 'eq':
            if self._ent(tm.le(tm.I0, e)):
                r = tm.le(e, tm.I0)
            elif self._ent(tm.le(e, tm.I0)):
                r = tm.le(tm.I0, e)
            else:
                return r
            if r.op != 'le':
                return r
            e = r.args[0]
        if r.op != 'le':
            return r
        c, its = tm._lin(e)
        cand = {}
        for x, k in its:
            if x.op == 'mul':
                for f, p in x.args:
                    if f.op == 'v' and p == 1:
                        cand.setdefault(f, 0)
        for s in cand:
            cand[s] = sum(1 for x, k in its if x is s or x.op == 'mul' and (s, 1) in x.args)
        for s in sorted(cand, key=lambda s: (-cand[s], str(s.args[0]))):
            if not self._ent(tm.lt(tm.I0, s)):
                continue
            A = B = tm.I0
            for x, k in its:
                if x is s:
                    B = tm.add(B, tm.const(k, 'I'))
                elif x.op == 'mul' and (s, 1) in x.args:
                    B = tm.add(B, tm.scale(k, tm.mul(*[tm.power(f, p) for f, p in x.args if f is not s])))
                else:
                    A = tm.add(A, tm.scale(k, x))
            A = tm.add(A, tm.const(c, 'I'))
            return tm.le(tm.sub(B, self.simp(tm.idiv(tm.neg(A), s))), tm.I0)
        return r

    def _ent(self, t):
        return solve.entails(self.facts, t)

    # ---- branching
    def decide(self, t):
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        t = self.simp(t)
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        t = norm.bcanon(t)
        if t.op == 'b':
            return t.args[0]
        if t in self.facts:
            return True
        nt = tm.not_(t)
        if nt in self.facts:
            return False
        if not solve.feasible(self.facts, t):
            return False
        if not solve.feasible(self.facts, nt):
            return True
        if not self.explorers:
            raise Unsupported('branch outside explorer')
        return self.explorers[-1].decide(t)


def _has_index(t, i):
    if t.op == 'app' and i in t.args[1:]:
        return True
    return any(_has_index(s, i) for s in tm.subterms(t))


def _quotient_instances(x, body, idx, linear=False):
    """values of x for which an index a + (b +- x) // c of the body becomes one of idx"""
    pats = []
    seen = set()

    def walk(t):
        if t in seen or x not in t.fv:
            return
        seen.add(t)
        if t.op == 'app':
            for a in t.args[1:]:
                if linear and a.sort == 'I' and x in a.fv:
                    c, its = tm._lin(a)
                    hit = [(u, k) for u, k in its if x in u.fv]
                    if len(hit) == 1 and hit[0][1] in (1, -1) and hit[0][0] is x:
                        pats.append((tm.I0, (a, tm.I1)))
                        continue
                if a.sort == 'I' and x in a.fv and a.op in ('add', 'idiv'):
                    c, its = tm._lin(a)
                    hit = [(u, k) for u, k in its if x in u.fv]
                    if len(hit) == 1 and hit[0][1] == 1 and hit[0][0].op == 'idiv':
                        pats.append((tm.sub(a, hit[0][0]), hit[0][0].args))
        for s in tm.subterms(t):
            walk(s)
    walk(body)
    out = []
    for al, (num, c) in pats:
        if x in c.fv:
            continue
        k0, its = tm._lin(num)
        d = dict(its)
        k = d.get(x)
        be = tm.sub(num, tm.scale(k, x)) if k in (1, -1) else None
        if be is None or x in be.fv:
            continue
        for i in idx:
            v = tm.sub(tm.mul(tm.sub(i, al), c), be)
            v = v if k == 1 else tm.neg(v)
            if v not in out:
                out.append(v)
    return out


def _has_simp(t):
    r = _hs.get(t)
    if r is None:
        r = t.op in ('ite', 'idiv', 'mod') or (t.op in ('le', 'lt', 'eq') and solve.int_only(t)) or \
            any(_has_simp(s) for s in tm.subterms(t))
        _hs[t] = r
    return r


_hs = {}
CTX = Ctx()


class Explorer:
    LIMIT = 400

    def __init__(self):
        self.prefix = []
        self.trace = []

    def decide(self, t):
        k = len(self.trace)
        choice = self.prefix[k] if k < len(self.prefix) else True
        self.trace.append((t, choice))
        CTX.assume(t if choice else tm.not_(t))
        if len(self.trace) > 60:
            raise PathLimit('too many branches on one path')
        return choice

    def run(self, fn, capture=None):
        """all paths of fn -> list of (trace, outcome, effects, extra)"""
        paths = []
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > self.LIMIT:
                raise PathLimit('too many paths')
            self.prefix, self.trace = prefix, []
            mark = CTX.mark()
            CTX.explorers.append(self)
            out = None
            try:
                try:
                    out = ('ok', fn())
                except Infeasible:
                    out = None
                except (Exception, SystemExit) as e:
                    if isinstance(e, (NameError,)) and not isinstance(e, UnboundLocalError) and 'free variable' not in str(e):
                        pass
                    out = ('exc', e)
                extra = capture() if capture and out else None
            finally:
                CTX.explorers.pop()
                eff = CTX.effects(mark)
                facts = CTX.facts[mark[0]:]
                CTX.undo(mark)
            trace = list(self.trace)
            if out is not None:
                paths.append((trace, out, eff, extra, facts))
            for k in range(len(prefix), len(trace)):
                work.append([c for _, c in trace[:k]] + [not trace[k][1]])
        return paths


# ---------------------------------------------------------------- cells
class Cell:
    """a mutable location with undo"""
    __slots__ = ('state', 'birth', 'owner', '__weakref__')

    def __init__(self, state, owner=None):
        self.state = state
        self.owner = owner
        self.birth = next(_birth)

    def set(self, new):
        CTX.trail.append((self, self.state))
        self.state = new


# ---------------------------------------------------------------- scalars
def lift(x):
    """python number / S -> T (or None)"""
    if isinstance(x, S):
        return x.t
    if isinstance(x, bool):
        return tm.boolc(x)
    if isinstance(x, int):
        return tm.const(x, 'I')
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf constant')
        return tm.const(Fraction(repr(x)), 'R')
    if isinstance(x, Fraction):
        return tm.const(x, 'R')
    if isinstance(x, T):
        return x
    return None


def num(t):
    """bool -> int for arithmetic"""
    if t.sort == 'B':
        return tm.ite(t, tm.I1, tm.I0)
    return t


def wrap(t):
    """T -> python value; integer and boolean constants become native"""
    if t.op == 'c' and t.sort == 'I' and t.args[0].denominator == 1:
        return int(t.args[0])
    if t.op == 'b':
        return t.args[0]
    return S(t)


def need_nonzero(t, what):
    """definedness: division"""
    if t.op == 'c':
        if t.args[0] == 0 and not CTX.spec_depth:
            raise Unsupported('division by the constant zero')
        return
    defined(tm.not_(tm.eq(t, tm.const(0, t.sort))), what)


def defined(cond, what):
    if cond is tm.TRUE:
        return
    if CTX.spec_depth:
        return
    if cond is tm.FALSE:
        raise Unsupported('undefined: ' + what)
    cond = CTX.simp(cond)
    if cond is tm.TRUE or cond in CTX.facts:
        return
    CTX.defs.append((what, cond, tuple(CTX.facts)))
    CTX.assume(cond)


class S:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'S(%s)' % tm.show(self.t, 4)
    __str__ = __repr__

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        return hash(self.t)

    # arithmetic
    def _seq(self, o, f, rev):
        """list (op) numpy scalar -> array"""
        from .lists import SList
        if isinstance(o, (SList, list)) and self.t.sort == 'R':
            from .shim_np import asarr
            from .arr import unop
            a = asarr(o)
            if a.kind in 'fi':
                return unop(a, (lambda x: f(num(x), self.t)) if rev else (lambda x: f(self.t, num(x))), 'f')
        return NotImplemented

    def _bin(self, o, f):
        b = lift(o)
        if b is None:
            return self._seq(o, f, False)
        return wrap(f(num(self.t), num(b)))

    def _rbin(self, o, f):
        b = lift(o)
        if b is None:
            return self._seq(o, f, True)
        return wrap(f(num(b), num(self.t)))

    def __add__(self, o): return self._bin(o, tm.add)
    def __radd__(self, o): return self._rbin(o, tm.add)
    def __sub__(self, o): return self._bin(o, tm.sub)
    def __rsub__(self, o): return self._rbin(o, tm.sub)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)) and self.t.sort == 'I':
            from .lists import rep
            return rep(o, self)
        return self._bin(o, tm.mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)) and self.t.sort == 'I':
            from .lists import rep
            return rep(o, self)
        return self._rbin(o, tm.mul)

    def __truediv__(self, o): return self._bin(o, sdiv)
    def __rtruediv__(self, o): return self._rbin(o, sdiv)
    def __floordiv__(self, o): return self._bin(o, sfloordiv)
    def __rfloordiv__(self, o): return self._rbin(o, sfloordiv)
    def __mod__(self, o): return self._bin(o, smod)
    def __rmod__(self, o): return self._rbin(o, smod)
    def __pow__(self, o): return self._bin(o, spow)
    def __rpow__(self, o): return self._rbin(o, spow)
    def __neg__(self): return wrap(tm.neg(num(self.t)))
    def __pos__(self): return self
    def __abs__(self): return wrap(tm.absval(num(self.t)))

    def _bool2(self, o, f):
        b = lift(o)
        if b is None:
            return NotImplemented
        return wrap(f(tob(self.t), tob(b)))

    def __and__(self, o): return self._bool2(o, tm.and_)
    __rand__ = __and__
    def __or__(self, o): return self._bool2(o, tm.or_)
    __ror__ = __or__

    def __invert__(self):
        if self.t.sort == 'B':
            return wrap(tm.not_(self.t))
        raise Unsupported('~ on number')

    # comparison
    def __lt__(self, o): return self._bin(o, tm.lt)
    def __le__(self, o): return self._bin(o, tm.le)
    def __gt__(self, o): return self._rbin(o, tm.lt)
    def __ge__(self, o): return self._rbin(o, tm.le)

    def __eq__(self, o):
        b = lift(o)
        if b is None:
            return False if o is None or isinstance(o, (str, tuple, list)) else NotImplemented
        if self.t.sort == 'B' and b.sort == 'B':
            return wrap(tm.eq(self.t, b))
        return wrap(tm.eq(num(self.t), num(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return CTX.decide(tob(self.t))

    def __index__(self):
        t = CTX.simp(self.t)
        if t.op == 'c' and t.args[0].denominator == 1 and t.sort == 'I':
            return int(t.args[0])
        raise Unsupported('symbolic integer used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.t.op == 'c':
            return float(self.t.args[0])
        raise Unsupported('symbolic value used as native float')

    def __round__(self, n=0):
        raise Unsupported('round')

    # numpy-scalar API
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def item(self): return self
    def copy(self): return self
    def astype(self, dt): return self
    def sum(self, *a, **k): return self
    def dot(self, o): return self * o
    @property
    def real(self): return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')


def tob(t):
    if t.sort == 'B':
        return t
    return tm.not_(tm.eq(t, tm.const(0, t.sort)))


def sdiv(a, b):
    need_nonzero(b, 'division')
    return tm.div(a, b)


def sfloordiv(a, b):
    if a.sort == 'I' and b.sort == 'I':
        if not CTX.entails(tm.lt(tm.I0, b)):
            raise Unsupported('floor division by a non-positive integer')
        return CTX.simp(tm.idiv(a, b))
    raise Unsupported('real floor division')


def smod(a, b):
    if a.sort == 'I' and b.sort == 'I':
        if not CTX.entails(tm.lt(tm.I0, b)):
            raise Unsupported('mod by a non-positive integer')
        return CTX.simp(tm.mod(a, b))
    raise Unsupported('real mod')


def spow(a, b):
    if b.op == 'c' and b.args[0].denominator == 1:
        n = int(b.args[0])
        if n < 0:
            need_nonzero(a, 'negative power')
        return tm.power(a if n >= 0 else tm.toreal(a), n)
    if b.op == 'c' and b.args[0] == Fraction(1, 2):
        defined(tm.le(tm.R0, tm.toreal(a)), 'square root')
        return tm.sqrt(a)
    defined(tm.le(tm.R0, tm.toreal(a)), 'real power of a negative number')
    return tm.fn('rpow', a, b)


def real(name):
    return S(tm.var(name, 'R'))


def integer(name):
    return S(tm.var(name, 'I'))
