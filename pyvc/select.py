"""Selections of array elements: x[mask], y[mask] = v, nonzero(mask), index arrays.

The positions of the true elements of a mask of symbolic length n are pos(0) < pos(1) < ... < pos(cnt - 1); rank is the
inverse of pos (both are extended to permutations of [0, n), the false positions last, so pos(rank(i)) = i and
rank(pos(k)) = k hold everywhere).  cnt, pos and rank are functions of the variables of the mask, named after its
canonical form, so equal masks have the same selection.
"""
from . import terms as tm
from .core import CTX, Unsupported, num, tob, wrap, lift
from . import env as envm
from . import arr as A

SELS = {}      # (mask, n) in canonical variables -> Sel
CNT = {}       # '@cnt7' -> Sel


class Sel:
    def __init__(self, k, cvars, ci, n, mask):
        self.names = cnt, pos, rank = '@cnt%d' % k, '@pos%d' % k, '@rank%d' % k
        self.cvars, self.ci, self.n, self.mask = cvars, ci, n, mask
        CNT[cnt] = self

        def undo(outer, inner):
            def rule(*a):
                x = a[-1]
                return x.args[-1] if x.op == 'app' and x.args[0] == inner and x.args[1:-1] == tuple(a[:-1]) else None
            tm.RULES[outer] = rule
        undo(pos, rank)
        undo(rank, pos)
        memo = {}

        def table(env, vals):
            from .solve import evaluate
            key = (id(env), vals)
            if memo.get('key') != key:
                bind = dict(zip(cvars, vals))
                m = evaluate(n, env, {}, bind)
                if m > 200:
                    raise envm.Undefined()
                on = [bool(evaluate(mask, env, {}, {**bind, ci: i})) for i in range(m)]
                memo['key'] = key
                memo['t'] = [i for i in range(m) if on[i]], [i for i in range(m) if not on[i]]
                memo['env'] = env
            return memo['t']

        def at(l, i):
            return l[i] if 0 <= i < len(l) else i
        envm.DEFNS[cnt] = lambda env, *a: len(table(env, a)[0])
        envm.DEFNS[pos] = lambda env, *a: at(sum(table(env, a[:-1]), []), a[-1])
        envm.DEFNS[rank] = lambda env, *a: (lambda l: l.index(a[-1]) if a[-1] in l else a[-1])(sum(table(env, a[:-1]), []))


def _vars(t, out):
    if t.op == 'v':
        if t is not tm.PI and t not in out:
            out.append(t)
    elif t.fv:
        for s in tm.subterms(t):
            _vars(s, out)
    return out


class Use:
    """a selection at particular arguments"""
    def __init__(self, sel, args):
        self.sel, self.args = sel, tuple(args)
        m = dict(zip(sel.cvars, args))
        self.n = tm.subst(sel.n, m)
        self._mask = tm.subst(sel.mask, m)
        self.cnt = tm.app(sel.names[0], self.args, 'I')

    def pos(self, k):
        return tm.app(self.sel.names[1], self.args + (A.it(k),), 'I')

    def rank(self, i):
        return tm.app(self.sel.names[2], self.args + (A.it(i),), 'I')

    def mask(self, i):
        return tm.subst(self._mask, {self.sel.ci: A.it(i)})

    def facts(self):
        k = tm.fresh('k', 'I')
        p = self.pos(k)
        have = set(CTX.facts)
        f = tm.and_(tm.le(tm.I0, self.cnt), tm.le(self.cnt, self.n), tm.forall(k, self.cnt, tm.and_(tm.le(tm.I0, p), tm.lt(p, self.n), self.mask(p))))
        for g in f.args if f.op == 'and' else (f,):
            if g not in have:
                CTX.assume(g)

    def inside(self, i):
        """i is selected: facts about its rank"""
        CTX.assume(tm.le(tm.I0, self.rank(i)))
        CTX.assume(tm.lt(self.rank(i), self.cnt))


def select(m):
    """selection of the true elements of a one-dimensional mask of symbolic length"""
    if m.ndim != 1 or isinstance(m._shape[0], int):
        raise Unsupported('boolean mask indexing')
    n = A.it(m._shape[0])
    i = tm.fresh('i', 'I')
    t = A.gterm([(i, n)], lambda: tob(m.read((i,))))
    t = CTX.simp(t)
    vs = [v for v in _vars(t, _vars(n, [])) if v is not i]
    cvs = [tm.var('@c%d%s' % (j, v.sort), v.sort) for j, v in enumerate(vs)]
    ci = tm.var('@ci', 'I')
    mp = dict(zip(vs, cvs))
    key = tm.subst(n, mp), tm.subst(tm.subst(t, {i: ci}), mp)
    s = SELS.get(key)
    if s is None:
        s = SELS[key] = Sel(len(SELS), cvs, ci, *key)
    u = Use(s, vs)
    u.facts()
    return u


def of_length(n):
    """the selection with this number of elements, if n is such a number"""
    n = getattr(n, 't', n)
    if isinstance(n, tm.T) and n.op == 'app' and n.args[0] in CNT:
        return Use(CNT[n.args[0]], n.args[1:])
    return None


def of_positions(k):
    """the selection whose positions are the elements of an integer array, if there is one"""
    u = of_length(k._shape[0]) if k.ndim == 1 else None
    if u is not None:
        q = tm.fresh('k', 'I')
        try:
            if A.gterm([(q, u.cnt)], lambda: num(k.read((q,)))) is u.pos(q):
                return u
        except Unsupported:
            pass
    return None


def positions(m):
    """np.flatnonzero"""
    if isinstance(m._shape[0], int) and m.ndim == 1:
        from .shim_np import asarr
        keep = [i for i in range(m._shape[0]) if CTX.decide(tob(m.read((i,))))]
        return asarr(keep) if keep else A.Arr(A.Buf((0,), 'i', ('const', tm.I0)))
    u = select(m)
    return A.build((u.cnt,), 'i', lambda idx: u.pos(idx[0]))


def bool_of(a):
    return a if a.kind == 'b' else A.unop(a, lambda t: tm.not_(tm.eq(num(t), tm.const(0, t.sort))), 'b')
