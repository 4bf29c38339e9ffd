"""Symbolic n-dimensional arrays with numpy view semantics."""
import itertools
from . import terms as tm
from .terms import T
from .core import CTX, Cell, S, Unsupported, lift, num, wrap, tob, sdiv, spow, sfloordiv, smod, _birth


def dim(x):
    """normalise a dimension / index: int or T (non constant)"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, S):
        x = x.t
    if isinstance(x, T):
        if x.sort != 'I':
            if x.sort == 'R':
                y = real_to_int(x)
                if y is not None:
                    raise TypeError("'float' object cannot be interpreted as an integer")
            raise Unsupported('non-integer index')
        x = CTX.simp(x)
        if x.op == 'c':
            return int(x.args[0])
        return x
    if hasattr(x, '__index__'):
        return x.__index__()
    raise TypeError('bad index %r' % (x,))


def real_to_int(t):
    """toreal(i) -> i"""
    if t.sort == 'I':
        return t
    if t.op == 'c':
        return tm.const(t.args[0], 'I') if t.args[0].denominator == 1 else None
    if t.op == 'toreal':
        return t.args[0]
    if t.op == 'add':
        c, its = t.args
        if c.denominator != 1:
            return None
        out = [tm.const(c, 'I')]
        for x, k in its:
            y = real_to_int(x)
            if y is None or k.denominator != 1:
                return None
            out.append(tm.scale(k, y))
        return tm.add(*out)
    if t.op == 'mul':
        out = []
        for b, e in t.args:
            y = real_to_int(b)
            if y is None or e < 0:
                return None
            out.append(tm.power(y, e))
        return tm.mul(*out)
    return None


def it(x):
    return tm.const(x, 'I') if isinstance(x, int) else x


def dsub(a, b):
    return dim(tm.sub(it(a), it(b)))


def dadd(a, b):
    return dim(tm.add(it(a), it(b)))


def dmul(a, b):
    return dim(tm.mul(it(a), it(b)))


def deq(a, b, decide=True):
    """dimension equality (bool); may branch"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = it(a), it(b)
    if a is b:
        return True
    t = tm.eq(a, b)
    if t.op == 'b':
        return t.args[0]
    if decide:
        return CTX.decide(t)
    return CTX.entails(t)


class Layer:
    __slots__ = ('params', 'idxs', 'guard', 'val')

    def __init__(self, params, idxs, guard, val):
        self.params, self.idxs, self.guard, self.val = params, idxs, guard, val

    def subst(self, m):
        """substitute free variables (params are private fresh variables)"""
        return Layer(tuple((p, tm.subst(n, m)) for p, n in self.params),
                     tuple(tm.subst(i, m) for i in self.idxs), tm.subst(self.guard, m), tm.subst(self.val, m))

    def fv(self):
        s = self.guard.fv | self.val.fv
        for i in self.idxs:
            s = s | i.fv
        for p, n in self.params:
            s = s | n.fv
        return s


def _coefs(e, params):
    """integer expression -> ({param: coef T}, rest T) or None"""
    c, its = tm._lin(e)
    out = {}
    rest = {}
    for x, k in its:
        d = dict(x.args) if x.op == 'mul' else {x: 1}
        ps = [p for p in params if p in x.fv]
        if not ps:
            rest[x] = k
            continue
        if len(ps) > 1 or d.get(ps[0], 0) != 1:
            return None
        p = ps[0]
        m = tuple(sorted(((y, ee) for y, ee in d.items() if y is not p), key=lambda q: q[0].id))
        for y, _ in m:
            if p in y.fv:
                return None
        if not m:
            co = tm.const(k, 'I')
        else:
            mt = m[0][0] if len(m) == 1 and m[0][1] == 1 else tm._mk('mul', m, 'I')
            co = tm.scale(k, mt)
        out[p] = tm.add(out[p], co) if p in out else co
    return out, tm.from_lin(c, rest, 'I')


def invert(params, exprs, targets):
    """solve exprs(params) == targets for the params: ({param: T}, cond) ; raises Unsupported"""
    ps = [p for p, _ in params]
    size = dict(params)
    sol = {}
    conds = []
    pending = []
    for e, tgt in zip(exprs, targets):
        cf = _coefs(e, ps)
        if cf is None:
            raise Unsupported('cannot invert write index %s' % tm.show(e))
        co, rest = cf
        if not co:
            conds.append(tm.eq(rest, tgt))
            continue
        pending.append((co, rest, tgt))
    for co, rest, tgt in pending:
        d = tm.sub(tgt, rest)
        un = [p for p in co if p not in sol]
        for p in co:
            if p in sol:
                d = tm.sub(d, tm.mul(co[p], sol[p]))
        if not un:
            conds.append(tm.eq(d, tm.I0))
            continue
        if len(un) == 1:
            p = un[0]
            k = co[p]
            if k is tm.I1:
                sol[p] = d
            elif k.op == 'c' and k.args[0] == -1:
                sol[p] = tm.neg(d)
            elif k.op == 'c' and k.args[0] > 0:
                sol[p] = CTX.simp(tm.idiv(d, k))
                conds.append(tm.eq(tm.mod(d, k), tm.I0))
            else:
                if not CTX.entails(tm.lt(tm.I0, k)):
                    raise Unsupported('symbolic stride of unknown sign')
                sol[p] = CTX.simp(tm.idiv(d, k))
                conds.append(tm.eq(tm.mod(d, k), tm.I0))
            continue
        # mixed radix
        left = list(un)
        order = []
        cur = None
        for p in left:
            if co[p].op == 'c' and co[p].args[0] > 0:
                if cur is None or co[p].args[0] < co[cur].args[0]:
                    cur = p
        if cur is None:
            raise Unsupported('mixed radix: no unit stride')
        stride = co[cur]
        while True:
            order.append((cur, stride))
            left.remove(cur)
            stride = CTX.simp(tm.mul(stride, size[cur]))
            if not left:
                break
            nxt = [p for p in left if CTX.simp(co[p]) is stride or CTX.entails(tm.eq(co[p], stride))]
            if not nxt:
                raise Unsupported('mixed radix: strides do not nest')
            cur = nxt[0]
        total = stride
        conds.append(tm.le(tm.I0, d))
        conds.append(tm.lt(d, total))
        s0 = order[0][1]
        if s0 is not tm.I1:
            conds.append(tm.eq(tm.mod(d, s0), tm.I0))
        for i, (p, st) in enumerate(order):
            v = d if st is tm.I1 else tm.idiv(d, st)
            if i < len(order) - 1:
                v = tm.mod(v, size[p])
            sol[p] = CTX.simp(v)
    for p, n in params:
        if p not in sol:
            # does not occur in the index: the last iteration wins
            sol[p] = tm.sub(n, tm.I1)
            conds.append(tm.lt(tm.I0, n))
        else:
            conds.append(tm.le(tm.I0, sol[p]))
            conds.append(tm.lt(sol[p], n))
    return sol, conds


def match(layer, idx):
    """condition and value of reading idx from a layer"""
    if not layer.params:
        cs = [tm.eq(a, b) for a, b in zip(layer.idxs, idx)]
        c = tm.and_(layer.guard, *cs)
        return c, layer.val
    if any(p in layer.guard.fv and not any(p in e.fv for e in layer.idxs) for p, _ in layer.params):
        raise Unsupported('guarded write whose index does not determine the iteration')
    sol, conds = invert(layer.params, layer.idxs, idx)
    c = tm.and_(*[CTX.simp(x) for x in conds])
    if c is tm.FALSE:
        return c, None
    g = tm.subst(layer.guard, sol)
    return tm.and_(c, g), tm.subst(layer.val, sol)


class Buf:
    __slots__ = ('shape', 'kind', 'base', 'planes', 'birth', 'symd', 'cond', 'ro')

    def __init__(self, shape, kind, base):
        self.shape = tuple(shape)
        self.kind = kind
        self.base = base
        self.planes = {}
        self.birth = next(_birth)
        self.ro = False
        self.symd = tuple(i for i, d in enumerate(self.shape) if not isinstance(d, int))
        self.cond = tuple(i for i, d in enumerate(self.shape) if isinstance(d, int))

    def split(self, idx):
        return tuple(idx[i] for i in self.cond), tuple(it(idx[i]) for i in self.symd)

    def base_read(self, ck, sk, idx):
        b = self.base
        if b[0] == 'const':
            return b[1]
        if b[0] == 'app':
            return tm.app(b[1], [it(x) for x in idx], b[2])
        ps = b[1]
        v = b[2][ck]
        return tm.subst(v, dict(zip(ps, sk))) if ps else v

    def read(self, idx):
        for j in self.cond:
            if not isinstance(idx[j], int):
                # symbolic index into a concrete dimension
                n = self.shape[j]
                r = None
                for v in range(n):
                    x = self.read(idx[:j] + (v,) + idx[j + 1:])
                    r = x if r is None else tm.ite(tm.eq(idx[j], tm.const(v, 'I')), x, r)
                return CTX.simp(r)
        ck, sk = self.split(idx)
        cell = self.planes.get(ck)
        acc = []
        if cell is not None:
            for layer in reversed(cell.state):
                c, v = match(layer, sk)
                c = CTX.simp(c)
                if c is tm.FALSE:
                    continue
                if c is not tm.TRUE:
                    if CTX.entails(c):
                        c = tm.TRUE
                    elif CTX.entails(tm.not_(c)):
                        continue
                if c is tm.TRUE:
                    return self._fold(acc, v)
                acc.append((c, v))
        return self._fold(acc, self.base_read(ck, sk, idx))

    def _fold(self, acc, v):
        for c, w in reversed(acc):
            v = tm.ite(c, w, v)
        return v

    def cell(self, ck, wr=False):
        if wr and self.ro:
            raise Unsupported('in-place write into an element of a symbolic list')
        c = self.planes.get(ck)
        if c is None:
            c = Cell((), (self, ck))
            c.birth = self.birth
            self.planes[ck] = c
        return c

    def write(self, idx, val):
        for j in self.cond:
            if not isinstance(idx[j], int):
                raise Unsupported('symbolic store index into a concrete dimension')
        ck, sk = self.split(idx)
        cell = self.cell(ck, True)
        if not sk:
            cell.set((Layer((), (), tm.TRUE, val),))
            return
        st = cell.state
        # drop layers that are completely overwritten
        keep = tuple(l for l in st if not (not l.params and l.idxs == sk))
        cell.set(keep + (Layer((), sk, tm.TRUE, val),))

    def frozen(self):
        """snapshot copy"""
        b = Buf(self.shape, self.kind, self.base)
        for k, c in self.planes.items():
            if c.state:
                b.cell(k).state = c.state
        return b

    def is_mutated(self):
        return any(c.state for c in self.planes.values())

    def fv(self):
        s = frozenset()
        for d in self.shape:
            if not isinstance(d, int):
                s |= d.fv
        if self.base[0] == 'const':
            s |= self.base[1].fv
        elif self.base[0] == 'lam':
            for v in self.base[2].values():
                s |= v.fv
            s -= frozenset(self.base[1])
        for c in self.planes.values():
            for l in c.state:
                s |= l.fv() - frozenset(p for p, _ in l.params)
        return s

    def subst(self, m):
        if not (self.fv() & frozenset(m)):
            return self
        sh = tuple(d if isinstance(d, int) else dim(tm.subst(d, m)) for d in self.shape)
        b = self.base
        if b[0] == 'const':
            nb = ('const', tm.subst(b[1], m))
        elif b[0] == 'lam':
            nb = ('lam', b[1], {k: tm.subst(v, m) for k, v in b[2].items()})
        else:
            nb = b
        if tuple(isinstance(d, int) for d in sh) != tuple(isinstance(d, int) for d in self.shape):
            raise Unsupported('dimension became concrete under substitution')
        r = Buf(sh, self.kind, nb)
        for k, c in self.planes.items():
            if c.state:
                r.cell(k).state = tuple(l.subst(m) for l in c.state)
        r.ro = self.ro
        return r


def _ident(idx):
    return idx


class Arr:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, buf, shape=None, map=None, contig=True):
        self.buf = buf
        self._shape = tuple(buf.shape if shape is None else shape)
        self.map = map or _ident
        self.contig = contig

    # ---- basics
    @property
    def kind(self): return self.buf.kind
    @property
    def shape(self): return tuple(d if isinstance(d, int) else S(d) for d in self._shape)
    @property
    def ndim(self): return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = dmul(r, d)
        return r if isinstance(r, int) else S(r)

    @property
    def dtype(self):
        from . import shim_np
        return shim_np.DT[self.kind]

    @property
    def T(self): return self.transpose()

    def __repr__(self):
        return 'Arr%s' % (self._shape,)

    def read(self, idx):
        return self.buf.read(self.map(tuple(idx)))

    def write(self, idx, v):
        if self.kind == 'i' and v.sort == 'R':
            y = real_to_int(v)
            if y is None:
                v = tm.app('@trunc', (v,), 'I')
            else:
                v = y
        elif self.kind == 'f':
            v = tm.toreal(num(v))
        elif self.kind == 'b':
            v = tob(v)
        self.buf.write(self.map(tuple(idx)), v)

    def snap(self):
        """value snapshot (safe against later mutation)"""
        return Arr(self.buf.frozen(), self._shape, self.map, self.contig)

    def subst(self, m):
        b = self.buf.subst(m)
        sh = tuple(d if isinstance(d, int) else dim(tm.subst(d, m)) for d in self._shape)
        old = self.map
        if old is _ident:
            mp = _ident
        else:
            def mp(idx, old=old, m=m):
                return tuple(x if isinstance(x, int) else dim(tm.subst(x, m)) for x in old(idx))
        return Arr(b, sh, mp, self.contig)

    def fv(self):
        s = self.buf.fv()
        for d in self._shape:
            if not isinstance(d, int):
                s |= d.fv
        # probe the map
        ps = [tm.fresh('p', 'I') for _ in self._shape]
        idx = tuple(0 if isinstance(d, int) else p for d, p in zip(self._shape, ps))
        try:
            for x in self.map(idx):
                if not isinstance(x, int):
                    s |= x.fv - frozenset(ps)
        except BaseException:
            pass
        return s

    # ---- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            used = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:i] + (slice(None),) * (self.ndim - used) + key[i + 1:]
        used = sum(1 for k in key if k is not None)
        if used > self.ndim:
            raise IndexError('too many indices for array')
        return key + (slice(None),) * (self.ndim - used)

    def view(self, key):
        key = self._norm_key(key)
        for k in key:
            if isinstance(k, Arr) or (hasattr(k, '__iter__') and not isinstance(k, (str, tuple))):
                return self._fancy(key)
        plan = []      # per source dim
        shape = []
        d = 0
        contig = self.contig
        seen_slice = False
        for k in key:
            if k is None:
                shape.append(1)
                plan.append(('new',))
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                a, step, ln = norm_slice(k, n)
                plan.append(('sl', a, step))
                shape.append(ln)
                if not (a == 0 and step == 1 and (ln is n or ln == n)):
                    if seen_slice or step != 1:
                        contig = False
                seen_slice = True
            else:
                if seen_slice:
                    contig = False
                plan.append(('ix', norm_index(k, n)))
            d += 1
        old = self.map

        def mp(idx):
            out = []
            j = 0
            for p in plan:
                if p[0] == 'new':
                    j += 1
                elif p[0] == 'ix':
                    out.append(p[1])
                else:
                    x = idx[j]
                    j += 1
                    out.append(x if (p[1] == 0 and p[2] == 1) else dadd(p[1], dmul(p[2], x)))
            return old(tuple(out))
        return Arr(self.buf, shape, mp, contig)

    def _fancy_key(self, key):
        lists = [(i, k) for i, k in enumerate(key) if not isinstance(k, slice) and k is not None and not isinstance(k, (int, S))]
        if len(lists) != 1:
            raise Unsupported('fancy indexing')
        i, k = lists[0]
        from .shim_np import asarr
        k = asarr(k)
        if k.kind == 'b':
            if k.ndim != 1:
                raise Unsupported('boolean mask indexing')
            d = [j for j in range(len(key)) if key[j] is not None].index(i)
            if not deq(k._shape[0], self._shape[d]):
                raise IndexError('boolean index did not match indexed array')
            from . import select
            k = select.positions(k)
        if k.ndim != 1:
            raise Unsupported('fancy indexing')
        ints = [j for j, x in enumerate(key) if isinstance(x, (int, S))]
        if ints and max(ints + [i]) - min(ints + [i]) != len(ints):
            raise Unsupported('fancy indexing with separated indices')
        return i, k

    def _fancy(self, key):
        i, k = self._fancy_key(key)
        base = self.view(key[:i] + (slice(None),) + key[i + 1:])
        ax = sum(1 for x in key[:i] if isinstance(x, slice) or x is None)
        n = k._shape[0]
        sh = base._shape[:ax] + (n,) + base._shape[ax + 1:]
        dimn = base._shape[ax]

        def f(idx):
            j = norm_index(wrap(k.read((idx[ax],))), dimn)
            return base.read(idx[:ax] + (j,) + idx[ax + 1:])
        return build(sh, self.kind, f)

    def __getitem__(self, key):
        if isinstance(key, Arr) and key.kind == 'b':
            return self._mask(key)
        v = self.view(key)
        if v.ndim == 0:
            return wrap(v.read(()))
        return v

    def _mask(self, m):
        if m.ndim == 1:
            return self.view((m,))
        raise Unsupported('boolean mask indexing')

    def __setitem__(self, key, val):
        from .shim_np import asarr
        if isinstance(key, Arr) and key.kind == 'b':
            if key.ndim == self.ndim and not hasattr(val, 'shape') or getattr(val, 'shape', None) == ():
                if not all(deq(a, b) for a, b in zip(key._shape, self._shape)):
                    raise IndexError('boolean index did not match indexed array')
                old = self.snap()
                t = lift(val) if lift(val) is not None else asarr(val).read(())
                key = key.snap()
                sh = key._shape
                self._assign(build(self._shape, self.kind, lambda i: tm.ite(tob(key.read(i[:len(sh)])), conv(t, self.kind), old.read(i))))
                return
            if key.ndim != 1:
                raise Unsupported('mask assignment')
        key = self._norm_key(key)
        if any(isinstance(k, Arr) or (hasattr(k, '__iter__') and not isinstance(k, (str, tuple))) for k in key):
            return self._set_fancy(key, val)
        self.view(key)._assign(val)

    def _set_fancy(self, key, val):
        from .shim_np import asarr
        from . import select
        i, k = self._fancy_key(key)
        val = asarr(val).snap()
        n = k._shape[0]
        full = self.view(key[:i] + (slice(None),) + key[i + 1:])     # a view: writes go through
        ax = sum(1 for x in key[:i] if isinstance(x, slice) or x is None)
        dimn = full._shape[ax]
        sh = full._shape[:ax] + (n,) + full._shape[ax + 1:]
        if len(val._shape) > len(sh):
            raise Unsupported('assignment through an index array')
        rd = bread(val, sh)
        if isinstance(n, int):
            for j in range(n):
                at = norm_index(wrap(k.read((j,))), dimn)
                rest = sh[:ax] + sh[ax + 1:]
                row = build(rest, self.kind, lambda idx: conv(rd(idx[:ax] + (j,) + idx[ax:]), self.kind))
                full.view((slice(None),) * ax + (wrap(it(at)),))._assign(row)
            return
        u = select.of_positions(k)
        if u is not None:
            old = full.snap()

            def f(idx):
                if CTX.decide(u.mask(idx[ax])):
                    u.inside(idx[ax])
                    return conv(rd(idx[:ax] + (u.rank(idx[ax]),) + idx[ax + 1:]), self.kind)
                return conv(old.read(idx), self.kind)
            full._assign(build(full._shape, self.kind, f))
            return
        for idxs, params in cells(sh):
            for idx in idxs:
                at = gterm(params, lambda: it(norm_index(wrap(k.read((idx[ax],))), dimn)))
                v = gterm(params, lambda: conv(rd(idx), self.kind))
                mark = CTX.mark()
                for p, m in params:
                    CTX.assume(tm.le(tm.I0, p))
                    CTX.assume(tm.lt(p, it(m)))
                try:
                    full._write_region(idx[:ax] + (at,) + idx[ax + 1:], params, v)
                finally:
                    CTX.undo_facts(mark)

    def _assign(self, val):
        from .shim_np import asarr
        a = asarr(val)
        if a.buf is self.buf and a.ndim:
            a = a.snap()
            same = True
        vsh = a._shape
        if len(vsh) > self.ndim:
            if all(d == 1 for d in vsh[:len(vsh) - self.ndim]):
                a = a.view((0,) * (len(vsh) - self.ndim))
                vsh = a._shape
            else:
                raise ValueError('could not broadcast input array from shape %r into shape %r' % (vsh, self._shape))
        rd = bread(a, self._shape)
        for idxs, params in cells(self._shape):
            if not params:
                for idx in idxs:
                    self.write(idx, rd(idx))
                continue
            for idx in idxs:
                v = gterm(params, lambda: rd(idx))
                mark = CTX.mark()
                for p, n in params:
                    CTX.assume(tm.le(tm.I0, p))
                    CTX.assume(tm.lt(p, it(n)))
                try:
                    self._write_region(idx, params, v)
                finally:
                    CTX.undo_facts(mark)

    def _write_region(self, idx, params, v):
        buf = self.buf
        tgt = self.map(tuple(idx))
        if self.kind == 'f':
            v = tm.toreal(num(v))
        elif self.kind == 'b':
            v = tob(v)
        elif v.sort == 'R':
            y = real_to_int(v)
            v = y if y is not None else tm.app('@trunc', (v,), 'I')
        for j in buf.cond:
            if not isinstance(tgt[j], int):
                raise Unsupported('symbolic store index into a concrete dimension')
        ck, sk = buf.split(tgt)
        cell = buf.cell(ck, True)
        lay = Layer(tuple((p, it(n)) for p, n in params), sk, tm.TRUE, v)
        full = (len(sk) == len(params) and all(e is p for e, (p, _) in zip(sk, params)) and
                all(deq(n, buf.shape[d], False) for (p, n), d in zip(params, buf.symd)))
        cell.set((lay,) if full else cell.state + (lay,))

    # ---- iteration
    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported('native len() of a symbolic-length array')

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported('native iteration over a symbolic-length array')
        for i in range(n):
            yield self[i]

    def __bool__(self):
        n = 1
        for d in self._shape:
            if d != 1:
                raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(wrap(self.read((0,) * self.ndim)))

    def __float__(self):
        return float(wrap(self.read((0,) * self.ndim)))

    # ---- arithmetic
    def _b(self, o, f, kind=None, rev=False):
        from .shim_np import asarr
        try:
            b = asarr(o)
        except TypeError:
            return NotImplemented
        a = self
        if rev:
            a, b = b, a
        return binop(a, b, f, kind)

    def __add__(self, o): return self._b(o, _add)
    def __radd__(self, o): return self._b(o, _add, None, True)
    def __sub__(self, o): return self._b(o, _sub)
    def __rsub__(self, o): return self._b(o, _sub, None, True)
    def __mul__(self, o): return self._b(o, _mul)
    def __rmul__(self, o): return self._b(o, _mul, None, True)
    def __truediv__(self, o): return self._b(o, _div, 'f')
    def __rtruediv__(self, o): return self._b(o, _div, 'f', True)
    def __pow__(self, o): return self._b(o, _pow)
    def __rpow__(self, o): return self._b(o, _pow, None, True)
    def __floordiv__(self, o): return self._b(o, lambda a, b: sfloordiv(num(a), num(b)))
    def __mod__(self, o): return self._b(o, lambda a, b: smod(num(a), num(b)))
    def __lt__(self, o): return self._b(o, lambda a, b: tm.lt(num(a), num(b)), 'b')
    def __le__(self, o): return self._b(o, lambda a, b: tm.le(num(a), num(b)), 'b')
    def __gt__(self, o): return self._b(o, lambda a, b: tm.lt(num(b), num(a)), 'b')
    def __ge__(self, o): return self._b(o, lambda a, b: tm.le(num(b), num(a)), 'b')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._b(o, lambda a, b: tm.eq(a, b) if a.sort == b.sort else tm.eq(num(a), num(b)), 'b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._b(o, lambda a, b: tm.not_(tm.eq(num(a), num(b))), 'b')

    def __and__(self, o): return self._b(o, lambda a, b: tm.and_(tob(a), tob(b)), 'b')
    def __or__(self, o): return self._b(o, lambda a, b: tm.or_(tob(a), tob(b)), 'b')
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(self): return unop(self, lambda a: tm.not_(tob(a)), 'b')
    def __neg__(self): return unop(self, lambda a: tm.neg(num(a)))
    def __pos__(self): return self
    def __abs__(self): return unop(self, lambda a: tm.absval(num(a)))

    def _inplace(self, o, f):
        from .shim_np import asarr
        r = binop(self, asarr(o), f)
        if self.kind == 'i' and r.kind == 'f':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if len(r._shape) != self.ndim:
            raise ValueError('non-broadcastable output operand')
        self._assign(r)
        return self

    def __iadd__(self, o): return self._inplace(o, _add)
    def __isub__(self, o): return self._inplace(o, _sub)
    def __imul__(self, o): return self._inplace(o, _mul)

    def __itruediv__(self, o):
        if self.kind == 'i':
            raise TypeError("Cannot cast ufunc 'divide' output")
        return self._inplace(o, _div)

    def __ipow__(self, o): return self._inplace(o, _pow)

    def __matmul__(self, o):
        from .shim_np import matmul
        return matmul(self, o)

    def __rmatmul__(self, o):
        from .shim_np import matmul
        return matmul(o, self)

    # ---- methods
    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int) and axes[0] is not None:
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        sh = tuple(self._shape[a] for a in axes)
        old = self.map
        n = self.ndim

        def mp(idx):
            out = [None] * n
            for j, a in enumerate(axes):
                out[a] = idx[j]
            return old(tuple(out))
        return Arr(self.buf, sh, mp, self.contig if axes == tuple(range(n)) else False)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and not isinstance(shape[0], (int, S)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, *a):
        return reshape(self, (-1,))

    def flatten(self, *a):
        return reshape(self, (-1,)).copy()

    def copy(self, *a):
        return build(self._shape, self.kind, self.read)

    def astype(self, dt, **k):
        from .shim_np import kind_of
        return build(self._shape, kind_of(dt), lambda i: conv(self.read(i), kind_of(dt)))

    def item(self, *a):
        return wrap(self.read((0,) * self.ndim))

    def tolist(self):
        from .lists import SList
        if self.ndim == 1:
            return SList([self[i] for i in range(len(self))])
        return SList([self[i].tolist() for i in range(len(self))])

    def fill(self, v):
        self[...] = v

    def squeeze(self, axis=None):
        from . import shim_np
        return shim_np.squeeze(self, axis)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        if offset or self.ndim != 2:
            raise Unsupported('diagonal')
        n, m = self._shape
        if not deq(n, m):
            raise Unsupported('diagonal of non-square')
        old = self.map
        return Arr(self.buf, (n,), lambda i: old((i[0], i[0])), False)

    def __getattr__(self, name):
        if name.startswith('__') or name == 'inv_of':
            raise AttributeError(name)
        from . import shim_np
        f = getattr(shim_np, name, None)
        if f is None or not callable(f) or name not in shim_np.METHODS:
            raise Unsupported('ndarray.%s' % name)
        return lambda *a, **k: f(self, *a, **k)


def conv(t, kind):
    if kind == 'f':
        return tm.toreal(num(t))
    if kind == 'b':
        return tob(t)
    if kind == 'i' and t.sort == 'R':
        y = real_to_int(t)
        return y if y is not None else tm.app('@trunc', (t,), 'I')
    if kind == 'i':
        return num(t)
    return t


def _add(a, b): return tm.add(num(a), num(b))
def _sub(a, b): return tm.sub(num(a), num(b))
def _mul(a, b): return tm.mul(num(a), num(b))
def _div(a, b):
    b = num(b)
    if b.op == 'c' and b.args[0] == 0:
        return tm.fresh('undefined', 'R')   # inf or nan: any value; harmless where it is not selected
    return sdiv(num(a), b)
def _pow(a, b): return spow(num(a), num(b))


def norm_index(k, n):
    k = dim(k)
    if isinstance(k, int) and isinstance(n, int):
        if k < -n or k >= n:
            raise IndexError('index %d is out of bounds for axis with size %d' % (k, n))
        return k + n if k < 0 else k
    kt, nt = it(k), it(n)
    if isinstance(k, int):
        if k < 0:
            if not CTX.decide(tm.le(tm.const(-k, 'I'), nt)):
                raise IndexError('index out of bounds')
            return dadd(n, k)
    elif not CTX.decide(tm.le(tm.I0, kt)):
        if not CTX.decide(tm.le(tm.neg(nt), kt)):
            raise IndexError('index out of bounds')
        return dadd(n, k)
    if not CTX.decide(tm.lt(kt, nt)):
        raise IndexError('index out of bounds')
    return k


def norm_slice(s, n):
    step = 1 if s.step is None else dim(s.step)
    if not isinstance(step, int):
        # a symbolic step: only the whole axis, forwards
        if s.start is not None or s.stop is not None or not CTX.decide(tm.lt(tm.I0, it(step))):
            raise Unsupported('symbolic slice step')
        q, r = tm._divide_out(it(n), it(step))
        if r is tm.I0 or CTX.simp(r) is tm.I0:
            return 0, step, dim(q)
        return 0, step, dim(tm.idiv(tm.add(it(n), tm.sub(it(step), tm.I1)), it(step)))

    def bound(v, default):
        if v is None:
            return default
        v = dim(v)
        if isinstance(v, int) and isinstance(n, int):
            return v
        vt, nt = it(v), it(n)
        if not CTX.decide(tm.le(tm.I0, vt)):
            v = dadd(v, n)
            vt = it(v)
            if not CTX.decide(tm.le(tm.I0, vt)):
                return 0
        if not CTX.decide(tm.le(vt, nt)):
            return n
        return v
    if isinstance(n, int) and all(x is None or isinstance(dim(x), int) for x in (s.start, s.stop)):
        a, b, st = slice(None if s.start is None else dim(s.start), None if s.stop is None else dim(s.stop), step).indices(n)
        return a, st, len(range(a, b, st))
    if step > 0:
        a = bound(s.start, 0)
        b = bound(s.stop, n)
        ln = dsub(b, a)
        if not isinstance(ln, int) and not CTX.decide(tm.le(tm.I0, ln)):
            ln = 0
        elif isinstance(ln, int) and ln < 0:
            ln = 0
        if step != 1:
            ln = dim(tm.idiv(tm.add(it(ln), tm.const(step - 1, 'I')), tm.const(step, 'I'))) if ln != 0 else 0
        return a, step, ln
    if step == -1:
        if s.start is None and s.stop is None:
            return dsub(n, 1), -1, n
        a = dsub(n, 1) if s.start is None else bound(s.start, None)
        if s.start is not None and deq(a, n, False):
            a = dsub(n, 1)
        b = -1 if s.stop is None else bound(s.stop, None)
        return a, -1, dsub(a, b)
    raise Unsupported('negative slice step')


def cells(shape):
    """[(list of index tuples, params)] : one group; params for symbolic dims"""
    params = []
    ranges = []
    for d in shape:
        if isinstance(d, int):
            ranges.append(range(d))
        else:
            p = tm.fresh('q', 'I')
            params.append((p, d))
            ranges.append((p,))
    yield list(itertools.product(*ranges)), params


def generic(params, fn, dead=None):
    """value of fn at generic indices (own explorer: a case split inside becomes an ite of the value)"""
    if not params:
        return fn()
    from .core import Explorer
    from .lists import merge_tree

    def once():
        for p, n in params:
            CTX.assume(tm.le(tm.I0, p))
            CTX.assume(tm.lt(p, it(n)))
        CTX.instantiate(*[p for p, _ in params])
        return fn()
    paths = Explorer().run(once)
    ok = []
    for q in paths:
        if q[1][0] != 'ok':
            e = q[1][1]
            raise Unsupported('exception at a generic element: %s: %s' % (type(e).__name__, e))
        if q[2]:
            raise Unsupported('side effect at a generic element')
        ok.append(q)
    if not ok:
        return dead
    if len(ok) == 1:
        return ok[0][1][1]
    m = CTX.mark()
    try:
        for p, n in params:
            CTX.assume(tm.le(tm.I0, p))
            CTX.assume(tm.lt(p, it(n)))
        return merge_tree(ok, lambda q: q[1][1])
    finally:
        CTX.undo_facts(m)


def gterm(params, fn):
    """generic() for a term-valued function"""
    if not params:
        return fn()
    v = lift(generic(params, fn, tm.R0))
    if v is None:
        raise Unsupported('non-scalar generic element')
    return v


def build(shape, kind, f):
    """materialise an array from an element function evaluated once at a generic index"""
    shape = tuple(dim(d) for d in shape)
    out = {}
    ps = None
    for idxs, params in cells(shape):
        if params:
            vals = generic(params, lambda: tuple(conv(f(idx), kind) for idx in idxs))
            if vals is None:
                vals = [conv(tm.R0, kind)] * len(idxs)
        else:
            vals = [conv(f(idx), kind) for idx in idxs]
        for idx, v in zip(idxs, vals):
            ck = tuple(x for x, d in zip(idx, shape) if isinstance(d, int))
            out[ck] = conv(lift(v), kind)
        ps = tuple(p for p, _ in params)
    return Arr(Buf(shape, kind, ('lam', ps, out)))


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if e == 1 and isinstance(e, int):
                continue
            if d == 1 and isinstance(d, int):
                d = e
            elif not deq(d, e):
                # a symbolic dimension equal to one would broadcast
                if not isinstance(d, int) and CTX.decide(tm.eq(d, tm.I1)):
                    d = e
                elif not isinstance(e, int) and CTX.decide(tm.eq(e, tm.I1)):
                    pass
                else:
                    raise ValueError('operands could not be broadcast together with shapes ' + ' '.join(map(str, shapes)))
        out.append(d)
    return tuple(out)


def bread(a, shape):
    """reader of a broadcast to shape"""
    sh = a._shape
    off = len(shape) - len(sh)
    one = [isinstance(d, int) and d == 1 for d in sh]
    for i, d in enumerate(sh):
        if one[i]:
            continue
        if not deq(d, shape[i + off]):
            if not isinstance(d, int) and CTX.entails(tm.eq(d, tm.I1)):
                one[i] = True
                continue
            raise ValueError('could not broadcast input array from shape %s into shape %s' % (sh, shape))

    def rd(idx):
        return a.read(tuple(0 if one[i] else idx[i + off] for i in range(len(sh))))
    return rd


def rkind(a, b):
    if 'f' in (a, b):
        return 'f'
    if 'i' in (a, b):
        return 'i'
    return 'b'


def binop(a, b, f, kind=None):
    sh = bshape(a._shape, b._shape)
    ra, rb = bread(a, sh), bread(b, sh)
    if kind is None:
        kind = rkind(a.kind, b.kind)
        if kind == 'b':
            kind = 'i'
    if not sh:
        return Arr(Buf((), kind, ('lam', (), {(): conv(f(ra(()), rb(())), kind)})))
    return build(sh, kind, lambda i: f(ra(i), rb(i)))


def unop(a, f, kind=None):
    return build(a._shape, kind or a.kind, lambda i: f(a.read(i)))


def out0(a):
    """0-d array -> scalar"""
    if isinstance(a, Arr) and a.ndim == 0:
        return wrap(a.read(()))
    return a


def reshape(a, shape):
    shape = list(shape)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = list(shape[0])
    shape = [dim(s) for s in shape]
    tot = 1
    for d in a._shape:
        tot = dmul(tot, d)
    if any(isinstance(s, int) and s == -1 for s in shape):
        i = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        k = 1
        for j, s in enumerate(shape):
            if j != i:
                k = dmul(k, s)
        if isinstance(tot, int) and isinstance(k, int):
            if k == 0 or tot % k:
                raise ValueError('cannot reshape')
            shape[i] = tot // k
        else:
            q, r = tm._divide_out(it(tot), it(k))
            if r is not tm.I0:
                r = CTX.simp(tm.mod(it(tot), it(k)))
                q = CTX.simp(tm.idiv(it(tot), it(k)))
                if r is not tm.I0 and not CTX.decide(tm.eq(r, tm.I0)):
                    raise ValueError('cannot reshape')
            shape[i] = dim(q)
    new = 1
    for d in shape:
        new = dmul(new, d)
    if not deq(tot, new):
        raise ValueError('cannot reshape array of size %s into shape %s' % (tot, shape))
    src = list(a._shape)
    dst = list(shape)
    # strip equal leading / trailing dims
    lead = 0
    while lead < min(len(src), len(dst)) and deq(src[lead], dst[lead], False):
        lead += 1
    s2, d2 = src[lead:], dst[lead:]
    trail = 0
    while trail < min(len(s2), len(d2)) and deq(s2[-1 - trail], d2[-1 - trail], False):
        trail += 1
    sm = s2[:len(s2) - trail]
    dm = d2[:len(d2) - trail]
    if not a.contig:
        a = a.snap()
    old = a.map

    def mp(idx):
        pre, mid, post = idx[:lead], idx[lead:lead + len(dm)], idx[lead + len(dm):]
        flat = 0
        for x, d in zip(mid, dm):
            flat = dadd(dmul(flat, d), x)
        out = []
        if sm:
            strides = []
            st = 1
            for d in reversed(sm[1:]):
                st = dmul(st, d)
                strides.append(st)
            strides.reverse()
            rem = flat
            for k, st in enumerate(strides):
                if isinstance(rem, int) and isinstance(st, int):
                    out.append(rem // st)
                    rem = rem % st
                else:
                    q = CTX.simp(tm.idiv(it(rem), it(st)))
                    r = CTX.simp(tm.mod(it(rem), it(st)))
                    out.append(dim(q))
                    rem = dim(r)
            out.append(rem)
        return old(tuple(pre) + tuple(out) + tuple(post))
    return Arr(a.buf, dst, mp, True)
