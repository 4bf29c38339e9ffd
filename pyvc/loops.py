"""Loops and comprehensions with a symbolic number of iterations.

The loop body is run once at a generic iteration t.  From the result the engine
proposes, for everything the body changes, a closed form of its value at the
start of iteration t (unchanged / initial + sum of increments / value of the
previous iteration / written region), and then runs the body again *assuming*
the proposal for t and checks that it re-establishes it for t+1.  That check is
the inductive step of the loop invariant; a proposal that is not reproduced is
refused (Unsupported), never accepted.
"""
from . import terms as tm
from . import norm
from .core import CTX, S, Explorer, Unsupported, Infeasible, lift, num, wrap, tob
from .arr import Arr, Buf, Layer, dim, it, dadd, dsub, dmul, build, invert
from .lists import (SList, SIter, Seg, Poison, as_iter, freeze, subst_value, value_fv, merge_val, merge_tree,
                    path_cond, tolist)


class _Sent:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


BREAK = _Sent('BREAK')
CONT = _Sent('CONT')
UNBOUND = _Sent('UNBOUND')


class Ret:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class Vars:
    """access to the local variables assigned in a loop body"""

    def __init__(self, spec):
        self.spec = spec      # list of (name, get, set, delete)

    def read(self):
        out = {}
        for name, g, s, d in self.spec:
            try:
                out[name] = g()
            except NameError:
                out[name] = UNBOUND
        return out

    def write(self, vals):
        for name, g, s, d in self.spec:
            v = vals.get(name, UNBOUND)
            if v is UNBOUND:
                try:
                    g()
                except NameError:
                    continue
                d()
            else:
                s(v)


def for_(iterable, body, spec):
    n, f = as_iter(iterable)
    if isinstance(n, int):
        for k in range(n):
            r = body(f(k))
            if r is BREAK:
                return BREAK
            if type(r) is Ret:
                return r
        return None
    return SymLoop(it(n), f, body, Vars(spec)).run()


# ---------------------------------------------------------------- symbolic loops
def _delta(new, phi):
    """new = phi + d  ->  d  (or None)"""
    if new is phi:
        return tm.const(0, phi.sort)
    if new.op == 'ite':
        a, b = _delta(new.args[1], phi), _delta(new.args[2], phi)
        if a is None or b is None or phi in new.args[0].fv:
            return None
        return tm.ite(new.args[0], a, b)
    d = tm.sub(new, tm.toreal(phi) if new.sort == 'R' and phi.sort == 'I' else phi)
    if phi in d.fv:
        d = norm.canon(d)
        if phi in d.fv:
            return None
    return d


def same(a, b):
    """syntactic or ring equality of two terms"""
    if a is b:
        return True
    if a.sort != b.sort:
        a, b = tm.toreal(num(a)), tm.toreal(num(b))
        if a is b:
            return True
    if norm.canon(a) is norm.canon(b):
        return True
    if a.sort == 'B':
        return CTX.entails(tm.eq(a, b))
    a2, b2 = CTX.simp(a), CTX.simp(b)
    if a2 is b2 or norm.canon(a2) is norm.canon(b2):
        return True
    if a.sort == 'I':
        return CTX.entails(tm.eq(a2, b2))
    from .prove import quick_zero
    return quick_zero(tm.sub(a2, b2))


def same_val(a, b):
    if a is b:
        return True
    x, y = lift(a), lift(b)
    if x is not None and y is not None:
        return same(x, y)
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim or any(it(p) is not it(q) and not CTX.entails(tm.eq(it(p), it(q))) for p, q in zip(a._shape, b._shape)):
            return False
        from .arr import cells
        for idxs, params in cells(a._shape):
            m = CTX.mark()
            try:
                for p, n in params:
                    CTX.assume(tm.le(tm.I0, p))
                    CTX.assume(tm.lt(p, it(n)))
                for i in idxs:
                    if not same(a.read(i), b.read(i)):
                        return False
            finally:
                CTX.undo_facts(m)
        return True
    if isinstance(a, (tuple, list, SList)) and isinstance(b, (tuple, list, SList)):
        pa = a.parts if isinstance(a, SList) else tuple(a)
        pb = b.parts if isinstance(b, SList) else tuple(b)
        if len(pa) != len(pb):
            return False
        for p, q in zip(pa, pb):
            if isinstance(p, Seg) or isinstance(q, Seg):
                if not (isinstance(p, Seg) and isinstance(q, Seg)) or not same(p.n, q.n) or len(p.vals) != len(q.vals):
                    return False
                k = tm.fresh('k', 'I')
                m = CTX.mark()
                try:
                    CTX.assume(tm.le(tm.I0, k))
                    CTX.assume(tm.lt(k, p.n))
                    if not all(same_val(u, v) for u, v in zip(p.at(k), q.at(k))):
                        return False
                finally:
                    CTX.undo_facts(m)
            elif not same_val(p, q):
                return False
        return True
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    if isinstance(a, (str, bytes, type(None), bool)):
        return a == b
    if type(a) is type(b) and hasattr(a, '__dict__') and set(a.__dict__) == set(b.__dict__):
        return all(same_val(a.__dict__[k], b.__dict__[k]) for k in a.__dict__)
    return False


class Scal:
    """a carried scalar: loop variable, element of a carried array variable, or a fixed array location"""

    def __init__(self, key, init, sort):
        self.key = key
        self.init = init
        self.sort = sort
        self.phi = tm.fresh('phi', sort)
        self.form = None      # ('same',) ('sum', d) ('last', v) ('or', c) ('and', c)

    def at(self, t, k):
        """value at the start of iteration k; the form's expressions mention t"""
        f = self.form
        if f is None:
            return self.phi
        if f[0] == 'same':
            return self.init
        if f[0] == 'sum':
            d = f[1]
            if t not in d.fv:
                return tm.add(self.init, tm.mul(tm.toreal(k) if self.sort == 'R' else k, d))
            if self.sort == 'I':
                raise Unsupported('sum of non-constant integer increments')
            u = tm.fresh('u', 'I')
            return tm.add(self.init, tm.mksum(u, k, tm.subst(d, {t: u})))
        if f[0] == 'last':
            v = tm.subst(f[1], {t: tm.sub(k, tm.I1)})
            c = CTX.simp(tm.le(k, tm.I0))
            if c is tm.FALSE or CTX.entails(tm.lt(tm.I0, k)):
                return v
            return tm.ite(tm.le(k, tm.I0), self.init, v)
        u = tm.fresh('u', 'I')
        if f[0] == 'or':
            return tm.or_(self.init, tm.exists(u, k, tm.subst(f[1], {t: u})))
        if f[0] == 'and':
            return tm.and_(self.init, tm.forall(u, k, tm.subst(f[1], {t: u})))
        if f[0] == 'max':
            m = tm.mkmax(u, k, tm.subst(f[1], {t: u}))
            return tm.ite(tm.le(k, tm.I0), self.init, tm.tmax(self.init, m))
        raise AssertionError


class SymLoop:
    def __init__(self, n, f, body, V):
        self.n, self.f, self.body, self.V = n, f, body, V

    # -- state description -------------------------------------------------
    def run(self):
        n = CTX.simp(self.n)
        self.n = n
        if n.op == 'c':
            k = int(n.args[0])
            for j in range(k):
                r = self.body(self.f(j))
                if r is BREAK or type(r) is Ret:
                    return r
            return None
        self.t = t = tm.fresh('t', 'I')
        self.init = self.V.read()
        self.sorts = {}
        self.scal = {}        # key -> Scal
        self.locs = {}        # key -> (cell, Layer idxs) for fixed locations
        self.regions = {}     # cell -> list of [params, idxs, guard, val] (param t included, mentions t)
        self.appends = {}     # list cell -> tuple of values (mention t)
        self.pre = {}         # cell -> state before the loop
        self.temps = {}       # name -> value at generic iteration (mentions t)
        ndefs = len(CTX.defs)
        CTX.symdepth += 1
        try:
            self._declare_vars()
            ok = False
            for attempt in range(7):
                del CTX.defs[ndefs:]
                okp, exc = self._run_body()
                if self._absorb(okp):
                    ok = True
                    break
            if not ok or any(x.form is None for x in self.scal.values()):
                raise Unsupported('no closed form found for a loop')
            self._hygiene(exc)
        finally:
            CTX.symdepth -= 1
            self.V.write(self.init)
        CTX.loop_obls.append((len(self.scal), len(self.regions), len(self.appends)))
        if exc:
            r = self._exceptional(exc)
            if r is not None:
                return r[0]
        self._install(self.n, final=True)
        return None

    def _declare_vars(self):
        for name, v in self.init.items():
            x = None if isinstance(v, (str,)) else lift(v)
            if x is not None:
                self.scal[('v', name)] = Scal(('v', name), x, x.sort)
            elif isinstance(v, Arr) and all(isinstance(d, int) for d in v._shape):
                import itertools
                for i in itertools.product(*[range(d) for d in v._shape]):
                    e = v.read(i)
                    self.scal[('a', name, i)] = Scal(('a', name, i), tm.toreal(num(e)) if v.kind == 'f' else e, e.sort)

    def _value(self, name, k):
        """value of a variable at the start of iteration k under the current hypothesis"""
        v = self.init[name]
        s = self.scal.get(('v', name))
        if s is not None:
            return wrap(s.at(self.t, k))
        if any(key[0] == 'a' and key[1] == name for key in self.scal):
            if all(s.form == ('same',) for key, s in self.scal.items() if key[0] == 'a' and key[1] == name):
                return v
            kinds = {s.sort for key, s in self.scal.items() if key[0] == 'a' and key[1] == name}
            kind = 'f' if 'R' in kinds else v.kind
            return build(v._shape, kind, lambda i: self.scal[('a', name, i)].at(self.t, k))
        return v

    def _install(self, k, final=False, phase=None):
        """set variables and heap to the hypothesised state at the start of iteration k"""
        t = self.t
        vals = {}
        atleast1 = None
        for name, v in self.init.items():
            has = ('v', name) in self.scal or any(key[0] == 'a' and key[1] == name for key in self.scal)
            if has:
                vals[name] = self._value(name, k)
            elif name in self.changed if hasattr(self, 'changed') else False:
                if final:
                    if atleast1 is None:
                        atleast1 = CTX.entails(tm.lt(tm.I0, k))
                    tv = self.temps.get(name, UNBOUND)
                    if atleast1 and tv is not UNBOUND and not isinstance(tv, Poison):
                        vals[name] = subst_value(tv, {t: tm.sub(k, tm.I1)})
                    else:
                        vals[name] = Poison('loop variable %s after a loop that may not run' % name)
                elif v is UNBOUND:
                    vals[name] = UNBOUND
                else:
                    vals[name] = Poison('value of %s carried between iterations' % name)
            else:
                vals[name] = v
        self.V.write(vals)
        for cell, items in self.appends.items():
            t2 = tm.fresh('t', 'I')
            cell.set(self.pre[cell] + (self._seg(items, t2, k),))
        cells = list(dict.fromkeys(list(self.regions) + [c for c, _ in self.locs.values()]))
        for cell in cells:
            st = self.pre[cell]
            scalar_plane = not cell.owner[0].symd
            if scalar_plane:
                for key, (c, idxs) in self.locs.items():
                    if c is cell:
                        st = (Layer((), (), tm.TRUE, self.scal[key].at(t, k)),)
            else:
                regs = self.regions.get(cell, [])
                lay = []
                for params, idxs, guard, val in regs:
                    t2 = tm.fresh('t', 'I')
                    m = {t: t2}
                    lay.append(Layer(((t2, k),) + tuple((p, tm.subst(q, m)) for p, q in params),
                                     tuple(tm.subst(i, m) for i in idxs), tm.subst(guard, m), tm.subst(val, m)))
                for key, (c, idxs) in self.locs.items():
                    if c is cell:
                        lay.append(Layer((), idxs, tm.TRUE, self.scal[key].at(t, k)))
                if len(lay) == 1 and _covers(cell.owner[0], lay[0]):
                    st = (lay[0],)
                else:
                    st = st + tuple(lay)
            cell.set(st)

    def _seg(self, items, t2, k):
        vals = [subst_value(v, {self.t: t2}) for v in items if not isinstance(v, Seg)]
        if len(items) == 1 and isinstance(items[0], Seg):
            sg = items[0]
            if self.t in sg.n.fv:
                raise Unsupported('symbolic number of appends per iteration')
            if len(sg.vals) != 1:
                raise Unsupported('several appends per inner iteration')
            u = t2
            q, r = tm.idiv(u, sg.n), tm.mod(u, sg.n)
            return Seg(u, tm.mul(k, sg.n), [subst_value(subst_value(sg.vals[0], {self.t: q}), {sg.t: r})])
        if any(isinstance(v, Seg) for v in items):
            raise Unsupported('mixed symbolic appends')
        return Seg(t2, k, vals)

    # -- one generic execution ---------------------------------------------
    def _run_body(self):
        t, n = self.t, self.n
        ex = Explorer()
        started = {}

        def once():
            CTX.assume(tm.le(tm.I0, t))
            CTX.assume(tm.lt(t, n))
            CTX.instantiate(t, flat=True)
            for x in self.scal.values():
                if x.form is None and x.sort == 'I':
                    # discovery only: the accepted round runs on closed forms
                    CTX.assume(tm.le(x.init, x.phi))
            self._install(t)
            started['state'] = {c: c.state for c in list(self.appends) + list(self.regions) + [c for c, _ in self.locs.values()]}
            r = self.body(self.f(dim(t)))
            return r

        paths = ex.run(once, capture=lambda: (self.V.read(), started.get('state', {})))
        okp, exc = [], []
        for p in paths:
            trace, (kind, v), eff, (vs, st0), facts = p
            p = (trace, (kind, v), eff, vs, facts, st0)
            if kind == 'ok' and (v is None or v is CONT):
                okp.append(p)
            else:
                exc.append(p)
        if not okp:
            raise Unsupported('every iteration of a symbolic loop leaves the loop')
        return okp, exc

    def _hygiene(self, exc):
        """no variable introduced during the generic iteration may escape"""
        lim = self.t.id

        def foreign(fv):
            return any(x.id > lim and x is not self.t for x in fv)
        for s in self.scal.values():
            if s.form and len(s.form) > 1 and foreign(s.form[1].fv):
                raise Unsupported('iteration-local choice escapes a loop')
        for regs in self.regions.values():
            for params, idxs, g, v in regs:
                ps = {p for p, _ in params}
                fv = g.fv | v.fv
                for e in idxs:
                    fv |= e.fv
                if foreign(fv - ps):
                    raise Unsupported('iteration-local choice escapes a loop')
        for items in self.appends.values():
            for v in items:
                fv = (value_fv(v.vals) - {v.t}) | v.n.fv if isinstance(v, Seg) else value_fv(v)
                if foreign(fv):
                    raise Unsupported('iteration-local choice escapes a loop')
        for k, v in list(self.temps.items()):
            if v is not UNBOUND and foreign(value_fv(v)):
                self.temps[k] = Poison('iteration-local choice escapes a loop')
        for p in exc:
            if foreign(path_cond(p).fv):
                raise Unsupported('iteration-local choice in an exit condition')

    # -- compare with the hypothesis, refine --------------------------------
    def _absorb(self, okp):
        t = self.t
        stable = True
        m0 = CTX.mark()
        CTX.assume(tm.le(tm.I0, t))
        CTX.assume(tm.lt(t, self.n))
        try:
            # ---- variables
            if not hasattr(self, 'changed'):
                self.changed = set()
            for name in self.init:
                # did any path change it?
                arrkeys = [k for k in self.scal if k[0] == 'a' and k[1] == name]
                s = self.scal.get(('v', name))
                if s is not None:
                    vals = [p[3][name] for p in okp]
                    if any(lift(v) is None or isinstance(v, str) for v in vals):
                        # becomes a non-scalar: treat as a temporary
                        del self.scal[('v', name)]
                        self.changed.add(name)
                        stable = False
                        continue
                    new = lift(merge_tree(okp, lambda p: p[3][name]))
                    stable &= self._scalar(s, new)
                elif arrkeys:
                    vals = [p[3][name] for p in okp]
                    if any(not isinstance(v, Arr) or v._shape != self.init[name]._shape for v in vals):
                        for k in arrkeys:
                            del self.scal[k]
                        self.changed.add(name)
                        stable = False
                        continue
                    new = merge_tree(okp, lambda p: p[3][name])
                    for k in arrkeys:
                        stable &= self._scalar(self.scal[k], new.read(k[2]))
                else:
                    vals = [p[3][name] for p in okp]
                    if all(v is self.init[name] for v in vals) and name not in self.changed:
                        continue
                    if name not in self.changed:
                        self.changed.add(name)
                        if self.init[name] is not UNBOUND:
                            stable = False
                    v = UNBOUND if any(x is UNBOUND for x in vals) else freeze(merge_tree(okp, lambda p: p[3][name]))
                    self.temps[name] = v
            # ---- heap
            cells = []
            for p in okp:
                for c in p[2]:
                    if c not in cells:
                        cells.append(c)
            for c in cells:
                own = c.owner
                if isinstance(own, SList):
                    stable &= self._list_cell(c, okp)
                elif own is not None:
                    stable &= self._plane(c, okp)
                else:
                    raise Unsupported('mutation of an unknown cell in a symbolic loop')
            return stable
        finally:
            CTX.undo_facts(m0)

    def _scalar(self, s, new):
        """refine/check the closed form of one carried scalar; True if confirmed"""
        t = self.t
        phis = frozenset(x.phi for x in self.scal.values())
        if s.form is None:
            if new.sort == 'R' and s.sort == 'I':
                s.sort = 'R'
                s.init = tm.toreal(s.init)
                s.phi = tm.fresh('phi', 'R')
                return False
            if new is s.phi or same(new, s.phi):
                s.form = ('same',)
                return False
            if s.sort == 'B':
                new = tob(new)
                if not (new.fv & phis):
                    s.form = ('last', new)
                    return False
                c1 = tm.subst(new, {s.phi: tm.FALSE})
                c2 = tm.subst(new, {s.phi: tm.TRUE})
                if c2 is tm.TRUE:
                    s.form = ('or', c1)
                    return False
                if c1 is tm.FALSE:
                    s.form = ('and', c2)
                    return False
                raise Unsupported('boolean recurrence')
            if not (new.fv & phis):
                s.form = ('last', new)
                return False
            d = _delta(new, s.phi)
            if d is not None:
                if not (d.fv & phis):
                    s.form = ('sum', d)
                    self._need_nonneg = True
                return False
            mx = _maxform(new, s.phi)
            if mx is not None and not (mx.fv & phis):
                s.form = ('max', mx)
                return False
            if s.phi in new.fv:
                raise Unsupported('recurrence without a closed form: %s' % tm.show(new, 3))
            return False      # depends on other, still unsolved, variables
        # check
        if new.fv & phis:
            new2 = new
            return False if any(x.form is None for x in self.scal.values()) else self._fail('unsolved recurrence')
        old = s.at(t, t)
        f = s.form
        if f[0] == 'same':
            if same(new, s.init):
                return True
            return self._fail('an unchanged variable changes')
        if f[0] == 'last':
            if same(new, f[1]):
                return True
            s.form = ('last', new)
            return False
        if f[0] == 'sum':
            if same(new, tm.add(old, f[1])):
                return True
            d = _delta_from(new, old)
            s.form = ('sum', d)
            self._count('refine', s.key)
            return False
        if f[0] == 'or':
            want = tm.or_(old, f[1])
        elif f[0] == 'and':
            want = tm.and_(old, f[1])
        else:
            want = tm.tmax(old, f[1])
            if CTX.entails(tm.lt(t, tm.I0)):
                return True
            if new is want or same(new, want):
                return True
            return self._fail('max')
        if new is want or CTX.entails(tm.eq(new, want)):
            return True
        return self._fail('boolean recurrence not reproduced')

    def _fail(self, why):
        raise Unsupported('loop invariant not preserved: ' + why)

    def _count(self, *k):
        self.cnt = getattr(self, 'cnt', {})
        self.cnt[k] = self.cnt.get(k, 0) + 1
        if self.cnt[k] > 3:
            raise Unsupported('loop invariant does not stabilise')

    def _list_cell(self, c, okp):
        if c not in self.pre:
            self.pre[c] = c.state
        extras = []
        for p in okp:
            base = p[5].get(c, self.pre[c])
            st = p[2].get(c, base)
            if len(st) < len(base) or any(a is not b for a, b in zip(st, base)):
                if not (len(st) >= len(base) and all(a is b or same_val(a, b) for a, b in zip(st, base))):
                    raise Unsupported('list modified other than by append in a symbolic loop')
            extras.append(st[len(base):])
        if len({len(e) for e in extras}) != 1:
            raise Unsupported('conditional append in a symbolic loop')
        pos = {id(p): e for p, e in zip(okp, extras)}
        items = []
        for k in range(len(extras[0])):
            if isinstance(extras[0][k], Seg):
                if len(okp) > 1:
                    raise Unsupported('symbolic append under a branch')
                items.append(extras[0][k])
            else:
                items.append(freeze(merge_tree(okp, lambda p: pos[id(p)][k])))
        items = tuple(items)
        if not items:
            return True
        old = self.appends.get(c)
        if old is not None and len(old) == len(items) and same_val(SList(old), SList(items)):
            return True
        self.appends[c] = items
        self._count('list', id(c))
        return False

    def _plane(self, c, okp):
        if c not in self.pre:
            self.pre[c] = c.state
        buf, ck = c.owner
        stable = True
        if not buf.symd:
            # a scalar location
            key = ('l', id(c), ())

            def get(p):
                st = p[2].get(c, p[5].get(c, self.pre[c]))
                return S(st[-1].val) if st else S(buf.base_read(ck, (), None) if buf.base[0] != 'app' else _noapp())
            new = num(lift(merge_tree(okp, get))) if buf.kind != 'b' else lift(merge_tree(okp, get))
            if key not in self.scal:
                st = self.pre[c]
                init = st[-1].val if st else buf.base_read(ck, (), None)
                self.scal[key] = Scal(key, init, init.sort)
                self.locs[key] = (c, ())
                return False
            return self._scalar(self.scal[key], new)
        # ---- symbolic plane: collect extra layers per path
        per = []
        for p in okp:
            base = p[5].get(c, self.pre[c])
            st = p[2].get(c, base)
            bi = [l for l in base]
            ex = []
            for l in st:
                if bi and any(l is b for b in bi):
                    continue
                ex.append(l)
            missing = [b for b in base if not any(b is l for l in st)]
            for b in missing:
                if not any(_overwrites(buf, l, b) for l in ex):
                    raise Unsupported('loop body discards earlier writes')
            per.append(ex)
        # ---- group by location shape
        groups = []          # [params, idxs, {path index: (guard, val)}]
        for i, ex in enumerate(per):
            for l in ex:
                hit = None
                for g in groups:
                    m = _unify(l, g)
                    if m is not None:
                        hit = g
                        break
                if hit is None:
                    groups.append([l.params, l.idxs, {i: (l.guard, l.val)}])
                else:
                    gd, v = tm.subst(l.guard, m), tm.subst(l.val, m)
                    if i in hit[2]:
                        og, ov = hit[2][i]
                        if gd is tm.TRUE:
                            hit[2][i] = (gd, v)
                        else:
                            hit[2][i] = (tm.or_(og, gd), tm.ite(gd, v, ov))
                    else:
                        hit[2][i] = (gd, v)
        idx_of = {id(p): i for i, p in enumerate(okp)}
        regs = []
        known_locs = {k: v for k, v in self.locs.items() if v[0] is c}
        phis = frozenset(x.phi for x in self.scal.values())
        for params, idxs, by in groups:
            if any(e.fv & phis for e in idxs):
                stable = False       # location not yet in closed form
                continue
            fixed = not params and not any(self.t in e.fv for e in idxs)
            if fixed:
                key = ('l', id(c), idxs)
                new_loc = key not in self.scal
                if new_loc:
                    m = CTX.mark()
                    cur = c.state
                    try:
                        c.state = self.pre[c]
                        full = _full_index(buf, ck, idxs)
                        init = buf.read(full)
                    finally:
                        c.state = cur
                        CTX.undo_facts(m)
                    self.scal[key] = Scal(key, init, init.sort)
                    self.locs[key] = (c, idxs)
                    stable = False
                    continue
                s = self.scal[key]

                def get(p):
                    r = by.get(idx_of[id(p)])
                    if r is None:
                        return S(s.at(self.t, self.t) if s.form is not None else s.phi)
                    g, v = r
                    if g is tm.TRUE:
                        return S(v)
                    return S(tm.ite(g, v, s.at(self.t, self.t) if s.form is not None else s.phi))
                new = lift(merge_tree(okp, get))
                stable &= self._scalar(s, new)
            else:
                # region: the fallback value under a false guard is irrelevant
                anyv = next(iter(by.values()))[1]

                def getv(p):
                    r = by.get(idx_of[id(p)])
                    return S(r[1]) if r else S(anyv)

                def getg(p):
                    r = by.get(idx_of[id(p)])
                    return S(r[0]) if r else S(tm.FALSE)
                val = lift(merge_tree(okp, getv)) if len(okp) > 1 else anyv
                if len(okp) > 1:
                    guard = lift(merge_tree(okp, getg))
                else:
                    guard = by[0][0]
                regs.append((params, idxs, guard, val))
        # disjointness of different write sites across iterations
        items = [(('r', r[1]), r) for r in regs]
        if len(regs) + len(known_locs) > 1:
            self._disjoint(regs, known_locs)
        old = self.regions.get(c)
        if regs or old:
            if old is not None and len(old) == len(regs) and all(self._same_region(a, b) for a, b in zip(old, regs)):
                pass
            else:
                stable = False
                self.regions[c] = regs
                self._count('region', id(c))
        return stable

    def _disjoint(self, regs, locs):
        t2 = tm.fresh('t', 'I')
        allr = [(r[0], r[1]) for r in regs] + [((), v[1]) for v in locs.values()]
        for i in range(len(allr)):
            for j in range(len(allr)):
                if i == j:
                    continue
                (pa, ia), (pb, ib) = allr[i], allr[j]
                ren = {self.t: t2}
                for p, n in pb:
                    ren[p] = tm.fresh('q', 'I')
                ib2 = [tm.subst(e, ren) for e in ib]
                conds = [tm.eq(a, b) for a, b in zip(ia, ib2)]
                m = CTX.mark()
                try:
                    CTX.assume(tm.le(tm.I0, t2))
                    CTX.assume(tm.lt(t2, self.t))    # later iteration t overwrites earlier t2
                    for p, n in pa:
                        CTX.assume(tm.le(tm.I0, p))
                        CTX.assume(tm.lt(p, n))
                    for p, n in pb:
                        CTX.assume(tm.le(tm.I0, ren[p]))
                        CTX.assume(tm.lt(ren[p], tm.subst(n, ren)))
                    if not CTX.entails(tm.not_(tm.and_(*conds))):
                        raise Unsupported('writes of different iterations may overlap')
                except Infeasible:
                    pass
                finally:
                    CTX.undo_facts(m)

    def _same_region(self, a, b):
        pa, ia, ga, va = a
        pb, ib, gb, vb = b
        l = Layer(pb, ib, gb, vb)
        m = _unify(l, [pa, ia, None])
        if m is None:
            return False
        mk = CTX.mark()
        try:
            for p, n in pa:
                CTX.assume(tm.le(tm.I0, p))
                CTX.assume(tm.lt(p, n))
            g2 = tm.subst(gb, m)
            if not (g2 is ga or same(g2, ga)):
                return False
            if ga is not tm.TRUE:
                CTX.assume(ga)
            return same(tm.subst(vb, m), va)
        except Infeasible:
            return True
        finally:
            CTX.undo_facts(mk)

    # -- exits ---------------------------------------------------------------
    def _exceptional(self, exc):
        """some iteration raises / returns / breaks under a condition E(t)"""
        t, n = self.t, self.n
        E = tm.or_(*[path_cond(p) for p in exc])
        # is it possible at all?
        m = CTX.mark()
        possible = True
        try:
            CTX.assume(tm.le(tm.I0, t))
            CTX.assume(tm.lt(t, n))
            CTX.assume(E)
            CTX.instantiate(t, flat=True)
            from . import solve
            if not solve.feasible(CTX.facts):
                possible = False
        except Infeasible:
            possible = False
        finally:
            CTX.undo_facts(m)
        if possible:
            ex = tm.exists(t, n, E)
            if not CTX.decide(ex):
                possible = False
        if not possible:
            u = tm.fresh('u', 'I')
            nf = tm.forall(u, n, tm.not_(tm.subst(E, {t: u})))
            if nf not in CTX.facts:
                CTX.assume(nf)
            return None
        t0 = tm.fresh('t0', 'I')
        CTX.assume(tm.le(tm.I0, t0))
        CTX.assume(tm.lt(t0, n))
        CTX.assume(tm.subst(E, {t: t0}))
        u = tm.fresh('u', 'I')
        CTX.assume(tm.forall(u, t0, tm.not_(tm.subst(E, {t: u}))))
        CTX.instantiate(t0, flat=True)
        self._install(t0)
        r = self.body(self.f(dim(t0)))
        if r is BREAK or type(r) is Ret:
            return (r,)
        raise Infeasible()


def _noapp():
    raise Unsupported('scalar location of an opaque array')


def _delta_from(new, old):
    d = tm.sub(new, old)
    return norm.canon(d)


def _maxform(new, phi):
    """ite(c, e, phi) with c equivalent to e > phi  (running maximum)"""
    if new.op != 'ite':
        return None
    c, a, b = new.args
    if b is phi and (c is tm.lt(phi, a) or c is tm.le(phi, a)):
        return a
    if a is phi and (c is tm.le(b, phi) or c is tm.lt(b, phi)):
        return b
    return None


def _full_index(buf, ck, sk):
    out = [None] * len(buf.shape)
    for i, v in zip(buf.cond, ck):
        out[i] = v
    for i, v in zip(buf.symd, sk):
        out[i] = dim(v)
    return tuple(out)


def _covers(buf, lay):
    """layer overwrites the whole plane"""
    if lay.guard is not tm.TRUE:
        return False
    if len(lay.params) != len(lay.idxs):
        return False
    ps = {p: n for p, n in lay.params}
    for e, d in zip(lay.idxs, buf.symd):
        if e not in ps:
            return False
        n = ps.pop(e)
        if n is not it(buf.shape[d]) and not CTX.entails(tm.eq(n, it(buf.shape[d]))):
            return False
    return True


def _overwrites(buf, new, old):
    if not new.params:
        return not old.params and old.idxs == new.idxs and new.guard is tm.TRUE
    return _covers(buf, new)


def _unify(l, g):
    """layer l against group g: renaming of l's params to g's params, or None"""
    gp, gi = g[0], g[1]
    if len(l.params) != len(gp):
        return None
    if not l.params:
        return {} if l.idxs == gi or all(a is b or norm.icanon(a) is norm.icanon(b) for a, b in zip(l.idxs, gi)) else None
    m = {p: q for (p, _), (q, _) in zip(l.params, gp)}
    for (p, n), (q, k) in zip(l.params, gp):
        if not same(tm.subst(n, m), k):
            return None
    for a, b in zip(l.idxs, gi):
        if not same(tm.subst(a, m), b):
            return None
    return m


# ---------------------------------------------------------------- comprehensions
def listcomp(iterable, fn, conds=()):
    n, f = as_iter(iterable)
    if isinstance(n, int):
        out = []
        for k in range(n):
            x = f(k)
            if all(bool(c(x)) for c in conds):
                out.append(fn(x))
        return SList(out)
    n = CTX.simp(it(n))
    if n.op == 'c':
        return listcomp(SIter(int(n.args[0]), f), fn, conds)
    t = tm.fresh('t', 'I')
    ex = Explorer()

    def once():
        CTX.assume(tm.le(tm.I0, t))
        CTX.assume(tm.lt(t, n))
        CTX.instantiate(t, flat=True)
        x = f(t)
        for c in conds:
            if not bool(c(x)):
                raise Unsupported('filtered comprehension over a symbolic range')
        return freeze(fn(x))
    CTX.symdepth += 1
    try:
        paths = ex.run(once)
    finally:
        CTX.symdepth -= 1
    okp = [p for p in paths if p[1][0] == 'ok']
    exc = [p for p in paths if p[1][0] != 'ok']
    if any(p[2] for p in paths):
        raise Unsupported('side effects in a symbolic comprehension')
    if exc:
        loop = SymLoop(n, lambda k: k, None, Vars([]))
        loop.t = t
        loop._install = lambda k, **kw: None
        loop.init = {}

        def body(k):
            x = f(k)
            for c in conds:
                bool(c(x))
            fn(x)
            return None
        loop.body = body
        loop._exceptional(exc)
    if not okp:
        return SList([])
    m = CTX.mark()
    CTX.assume(tm.le(tm.I0, t))
    CTX.assume(tm.lt(t, n))
    try:
        v = merge_tree(okp, lambda p: p[1][1])
    finally:
        CTX.undo_facts(m)
    return SList([Seg(t, n, (freeze(v),))])


# ---------------------------------------------------------------- while
def while_(cond, body, spec):
    V = Vars(spec)
    guard = 0
    while True:
        c = cond()
        if not isinstance(c, S):
            if not c:
                return None
        else:
            t = CTX.simp(tob(c.t))
            if t is tm.FALSE:
                return None
            if t is not tm.TRUE:
                if CTX.entails(t):
                    pass
                elif CTX.entails(tm.not_(t)):
                    return None
                else:
                    return _sym_while(cond, body, V)
        r = body()
        if r is BREAK or type(r) is Ret:
            return r
        guard += 1
        if guard > 2000:
            raise Unsupported('while loop does not terminate symbolically')


def _sym_while(cond, body, V):
    """counter-controlled while loop: find the trip count from the counter's closed form"""
    init = V.read()
    # discover constant integer steps
    t = tm.fresh('w', 'I')
    phis = {}
    for name, v in init.items():
        x = lift(v) if not isinstance(v, str) else None
        if x is not None and x.sort == 'I' and not isinstance(v, bool):
            phis[name] = tm.fresh('phi', 'I')
    ex = Explorer()

    def once():
        vals = {}
        for name, v in init.items():
            vals[name] = wrap(phis[name]) if name in phis else v
        V.write(vals)
        c = cond()
        CTX.assume(tob(lift(c)))
        r = body()
        if not (r is None or r is CONT):
            raise Unsupported('exit from a symbolic while loop')
        return c
    nd = len(CTX.defs)
    CTX.symdepth += 1
    try:
        paths = [p for p in ex.run(once, capture=V.read) if p[1][0] == 'ok']
    finally:
        CTX.symdepth -= 1
        V.write(init)
        del CTX.defs[nd:]
    if not paths:
        raise Unsupported('while')
    steps = {}
    for name, ph in phis.items():
        ds = set()
        for p in paths:
            x = lift(p[3][name])
            d = _delta(x, ph) if x is not None and x.sort == 'I' else None
            ds.add(d)
        if len(ds) == 1 and None not in ds:
            d = ds.pop()
            if d.op == 'c':
                steps[name] = int(d.args[0])
    # condition as a function of the iteration number

    def cond_at(k):
        vals = dict(init)
        for name in phis:
            if name in steps:
                vals[name] = wrap(tm.add(lift(init[name]), tm.scale(steps[name], k)))
            else:
                vals[name] = Poison('while condition on a non-counter')
        V.write(vals)
        try:
            return tob(lift(cond()))
        finally:
            V.write(init)
    c = CTX.simp(cond_at(t))
    c = norm.bcanon(c)
    if c.op != 'le':
        raise Unsupported('while condition is not a counter bound')
    e = c.args[0]       # e <= 0,  e = a*t + r
    k0, its = tm._lin(e)
    a = None
    rest = {}
    for x, k in its:
        if x is t:
            a = k
        elif t in x.fv:
            raise Unsupported('while condition not affine')
        else:
            rest[x] = k
    if a is None or a <= 0:
        raise Unsupported('while loop does not count up to its bound')
    r = tm.from_lin(k0, rest, 'I')
    # iterations t with a*t + r <= 0 :  t <= floor(-r/a);  count = max(0, floor(-r/a)+1)
    cnt = tm.add(tm.neg(r) if a == 1 else tm.idiv(tm.neg(r), tm.const(a, 'I')), tm.I1)
    if not CTX.decide(tm.le(tm.I0, cnt)):
        return None

    def wbody(_):
        return body()
    return SymLoop(CTX.simp(cnt), lambda k: None, wbody, V).run()
