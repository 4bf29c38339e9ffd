"""Lists with symbolic segments, iteration protocol, deep substitution / merging of values."""
import builtins
from . import terms as tm
from .terms import T
from .core import CTX, Cell, S, Unsupported, lift, num, wrap, tob, _birth
from .arr import Arr, Buf, dim, it, dadd, dsub, dmul, deq, build, generic, conv, norm_index, norm_slice


class Poison:
    """value that is not determined (e.g. a loop temporary after a loop that may not run)"""

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, 'why'))

    def __getattr__(self, n):
        raise Unsupported(object.__getattribute__(self, 'why'))

    for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __neg__ __getitem__ __setitem__ '
               '__len__ __iter__ __bool__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ __call__ __pow__ __iadd__ __isub__ __imul__ '
               '__itruediv__ __index__ __float__ __int__ __abs__ __contains__ __matmul__ __and__ __or__ __invert__').split():
        locals()[_n] = _no
    __hash__ = object.__hash__


class Seg:
    """items produced by iterations t in [0,n): per iteration the tuple vals(t)"""
    __slots__ = ('t', 'n', 'vals')

    def __init__(self, t, n, vals):
        self.t, self.n, self.vals = t, n, tuple(vals)

    def at(self, k):
        return tuple(subst_value(v, {self.t: it(k)}) for v in self.vals)


class SList:
    __hash__ = None

    def __init__(self, items=()):
        self.cell = Cell(tuple(items), self)

    @property
    def parts(self):
        return self.cell.state

    # -- structure
    def symbolic(self):
        return any(isinstance(p, Seg) for p in self.parts)

    def length(self):
        n = 0
        for p in self.parts:
            n = dadd(n, dmul(len(p.vals), dim(p.n))) if isinstance(p, Seg) else dadd(n, 1)
        return n

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a symbolic list')

    def item(self, k):
        """element at a normalised index"""
        if not self.symbolic():
            if isinstance(k, int):
                return self.parts[k]
            items = self.parts
            r = items[-1]
            for j in range(len(items) - 2, -1, -1):
                r = merge_val(tm.eq(k, tm.const(j, 'I')), items[j], r)
            return r
        off = 0
        ps = self.parts
        for i, p in enumerate(ps):
            ln = dmul(len(p.vals), dim(p.n)) if isinstance(p, Seg) else 1
            end = dadd(off, ln)
            last = i == len(ps) - 1
            if not last:
                inside = _lt(k, end)
            else:
                inside = True
            if inside:
                if not isinstance(p, Seg):
                    return p
                rel = dsub(k, off)
                m = len(p.vals)
                if m == 1:
                    return p.at(rel)[0]
                q = dim(tm.idiv(it(rel), tm.const(m, 'I')))
                r = dim(tm.mod(it(rel), tm.const(m, 'I')))
                vals = p.at(q)
                if isinstance(r, int):
                    return vals[r]
                out = vals[-1]
                for j in range(m - 2, -1, -1):
                    out = merge_val(tm.eq(r, tm.const(j, 'I')), vals[j], out)
                return out
            off = end
        raise IndexError('list index out of range')

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        n = self.length()
        try:
            k = norm_index(k, n)
        except IndexError:
            raise IndexError('list index out of range') from None
        return self.item(k)

    def _slice(self, k):
        if not self.symbolic():
            a = [None if x is None else dim(x) for x in (k.start, k.stop, k.step)]
            if all(x is None or isinstance(x, int) for x in a):
                return SList(self.parts[slice(*a)])
        n = self.length()
        a, st, ln = norm_slice(k, n)
        if isinstance(ln, int):
            return SList([self.item(dadd(a, dmul(st, i))) for i in range(ln)])
        t = tm.fresh('t', 'I')
        v = generic([(t, ln)], lambda: self.item(dadd(a, dmul(st, t))))
        return SList([Seg(t, it(ln), (v,))])

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            raise Unsupported('list slice assignment')
        if self.symbolic():
            raise Unsupported('assignment into a symbolic list')
        k = norm_index(k, len(self))
        if not isinstance(k, int):
            raise Unsupported('symbolic list index assignment')
        p = list(self.parts)
        p[k] = v
        self.cell.set(tuple(p))

    def __iter__(self):
        if self.symbolic():
            n = self.length()
            if not isinstance(n, int):
                raise Unsupported('native iteration over a symbolic list')
        i = 0
        while i < len(self):
            yield self.item(i)
            i += 1

    def __contains__(self, x):
        if self.symbolic():
            raise Unsupported('in symbolic list')
        for y in self.parts:
            if x is y or bool(x == y):
                return True
        return False

    def __bool__(self):
        n = self.length()
        if isinstance(n, int):
            return n > 0
        return CTX.decide(tm.lt(tm.I0, n))

    def append(self, v):
        self.cell.set(self.parts + (v,))

    def extend(self, o):
        o = tolist(o)
        self.cell.set(self.parts + o.parts)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (SList, list)):
            return NotImplemented
        return SList(self.parts + tolist(o).parts)

    def __radd__(self, o):
        return SList(tolist(o).parts + self.parts)

    def __mul__(self, k):
        return rep(self, k)
    __rmul__ = __mul__

    def insert(self, i, v):
        i = dim(i)
        if i == 0:
            self.cell.set((v,) + self.parts)
            return
        if self.symbolic() or not isinstance(i, int):
            raise Unsupported('list.insert')
        p = list(self.parts)
        p.insert(i, v)
        self.cell.set(tuple(p))

    def pop(self, i=-1):
        if self.symbolic() or not isinstance(i, int):
            raise Unsupported('list.pop on a symbolic list')
        p = list(self.parts)
        v = p.pop(i)
        self.cell.set(tuple(p))
        return v

    def copy(self):
        return SList(self.parts)

    def clear(self):
        self.cell.set(())

    def reverse(self):
        self.cell.set(self._slice(slice(None, None, -1)).parts)

    def index(self, x):
        for i, y in enumerate(self):
            if bool(x == y):
                return i
        raise ValueError('not in list')

    def sort(self, **k):
        raise Unsupported('list.sort')

    def __eq__(self, o):
        if not isinstance(o, (SList, list)):
            return NotImplemented
        o = tolist(o)
        if self.symbolic() or o.symbolic():
            raise Unsupported('== of symbolic lists')
        if len(self) != len(o):
            return False
        return all(bool(a == b) for a, b in zip(self.parts, o.parts))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return 'SList%r' % (self.parts,)


def _lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return CTX.decide(tm.lt(it(a), it(b)))


def rep(obj, k):
    """sequence * integer"""
    k = dim(k)
    if isinstance(obj, (str, bytes)):
        if not isinstance(k, int):
            raise Unsupported('string * symbolic')
        return obj * k
    if isinstance(obj, tuple):
        if isinstance(k, int):
            return obj * k
        obj = SList(obj)
    obj = tolist(obj)
    if isinstance(k, int):
        return SList(obj.parts * max(k, 0))
    if obj.symbolic():
        raise Unsupported('symbolic list * symbolic integer')
    if not CTX.decide(tm.le(tm.I0, k)):
        return SList([])
    t = tm.fresh('t', 'I')
    return SList([Seg(t, k, obj.parts)])


def tolist(o):
    if isinstance(o, SList):
        return o
    if isinstance(o, (list, tuple)):
        return SList(o)
    n, f = as_iter(o)
    if isinstance(n, int):
        return SList([f(i) for i in range(n)])
    t = tm.fresh('t', 'I')
    v = generic([(t, n)], lambda: freeze(f(t)))
    return SList([Seg(t, it(n), (v,))])


# ---------------------------------------------------------------- iteration protocol
class SIter:
    """lazy iterable with a length (int or T) and an element function"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def length(self): return self.n

    def __iter__(self):
        if not isinstance(self.n, int):
            raise Unsupported('native iteration over a symbolic range')
        for i in range(self.n):
            yield self.f(i)

    def __len__(self):
        if not isinstance(self.n, int):
            raise Unsupported('len() of symbolic iterable')
        return self.n

    def __getitem__(self, k):
        k = norm_index(k, self.n)
        return self.f(k)


def pyint(k):
    return k if isinstance(k, int) else wrap(it(k))


def as_iter(o):
    """(length, element function) of an iterable; length may be symbolic"""
    if isinstance(o, SIter):
        return o.n, o.f
    if isinstance(o, SList):
        return o.length(), o.item
    if isinstance(o, Arr):
        if o.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return o._shape[0], (lambda k: o[pyint(k)])
    if isinstance(o, (list, tuple, str)):
        return len(o), (lambda k: o[k] if isinstance(k, int) else SList(o).item(k))
    if isinstance(o, builtins.range):
        return len(o), (lambda k: o[k] if isinstance(k, int) else wrap(tm.add(tm.const(o.start, 'I'), tm.scale(o.step, k))))
    if isinstance(o, (S, int, float)):
        raise TypeError("object is not iterable")
    if isinstance(o, Poison):
        o._no()
    lst = list(o)
    return len(lst), (lambda k: lst[k])


def range_(*a):
    a = [dim(x) if isinstance(x, (S, int)) else _badrange(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if not isinstance(step, int):
        raise Unsupported('symbolic range step')
    if step == 0:
        raise ValueError('range() arg 3 must not be zero')
    if step > 0:
        d = dsub(stop, start)
    else:
        d = dsub(start, stop)
    if isinstance(d, int):
        d = max(d, 0)
    elif not CTX.decide(tm.le(tm.I0, d)):
        d = 0
    s = abs(step)
    if s != 1:
        d = dim(tm.idiv(tm.add(it(d), tm.const(s - 1, 'I')), tm.const(s, 'I')))
    return SIter(d, lambda k: pyint(dadd(start, dmul(step, k))))


def _badrange(x):
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)


def zip_(*its, strict=False):
    if not its:
        return builtins.zip()
    ns, fs = builtins.zip(*[as_iter(i) for i in its])
    n = ns[0]
    for m in ns[1:]:
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        elif deq(n, m, False):
            pass
        elif CTX.decide(tm.le(it(n), it(m))):
            pass
        else:
            n = m
    return SIter(n, lambda k: tuple(f(k) for f in fs))


def enumerate_(x, start=0):
    n, f = as_iter(x)
    return SIter(n, lambda k: (pyint(dadd(start if isinstance(start, int) else dim(start), k)), f(k)))


def reversed_(x):
    n, f = as_iter(x)
    return SIter(n, lambda k: f(dsub(dsub(n, 1), k)))


def map_(fn, *its):
    from .loops import listcomp
    if len(its) == 1:
        return listcomp(its[0], fn, ())
    return listcomp(zip_(*its), lambda a: fn(*a), ())


# ---------------------------------------------------------------- deep substitution / merging
def freeze(v):
    """snapshot of a value (later mutation of arrays does not show)"""
    if isinstance(v, Arr):
        a = v.snap()
        a.buf.ro = True
        return a
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, SList):
        return SList([Seg(p.t, p.n, p.vals) if isinstance(p, Seg) else freeze(p) for p in v.parts])
    return v


def value_fv(v):
    if isinstance(v, S):
        return v.t.fv
    if isinstance(v, T):
        return v.fv
    if isinstance(v, Arr):
        return v.fv()
    if isinstance(v, (tuple, list)):
        s = frozenset()
        for x in v:
            s |= value_fv(x)
        return s
    if isinstance(v, SList):
        s = frozenset()
        for p in v.parts:
            if isinstance(p, Seg):
                s |= p.n.fv | (value_fv(p.vals) - {p.t})
            else:
                s |= value_fv(p)
        return s
    return frozenset()


def subst_value(v, m):
    if isinstance(v, S):
        return wrap(tm.subst(v.t, m))
    if isinstance(v, Arr):
        if not (v.fv() & frozenset(m)):
            return v
        return v.subst(m)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, SList):
        if not (value_fv(v) & frozenset(m)):
            return v
        out = []
        for p in v.parts:
            if isinstance(p, Seg):
                out.append(Seg(p.t, tm.subst(p.n, m), [subst_value(x, m) for x in p.vals]))
            else:
                out.append(subst_value(p, m))
        return SList(out)
    if v is None or isinstance(v, (int, float, str, bool, bytes, Poison)):
        return v
    if isinstance(v, SIter):
        raise Unsupported('substitution in lazy iterable')
    if callable(v) or isinstance(v, type):
        return v
    d = getattr(v, '__dict__', None)
    if d is not None:
        if not any(value_fv(x) & frozenset(m) for x in d.values()):
            return v
        import copy
        w = copy.copy(v)
        for k, x in d.items():
            w.__dict__[k] = subst_value(x, m)
        return w
    return v


def same_value(a, b):
    if a is b:
        return True
    x, y = lift(a), lift(b)
    if x is not None and y is not None:
        return x is y
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(p, q) for p, q in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.buf is b.buf and a._shape == b._shape and a.map is b.map
    return False


def merge_val(c, a, b):
    """value of (a if c else b)"""
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if same_value(a, b):
        return a
    if isinstance(a, Poison):
        return a
    if isinstance(b, Poison):
        return b
    x, y = lift(a), lift(b)
    if x is not None and y is not None:
        if x.sort == 'B' and y.sort == 'B':
            return wrap(tm.ite(c, x, y))
        return wrap(tm.ite(c, num(x), num(y)))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
            for p, q in zip(a._shape, b._shape):
                if not deq(p, q, False):
                    return Poison('merge of arrays of different shape')
            kind = 'f' if 'f' in (a.kind, b.kind) else ('i' if 'i' in (a.kind, b.kind) else 'b')

            def f(i):
                p, q = a.read(i), b.read(i)
                return tm.ite(c, p, q)
            return build(a._shape, kind, f)
        return Poison('merge of array and non-array')
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, p, q) for p, q in zip(a, b))
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        la, lb = tolist(a), tolist(b)
        if not la.symbolic() and not lb.symbolic() and len(la) == len(lb):
            return SList([merge_val(c, p, q) for p, q in zip(la.parts, lb.parts)])
    return Poison('merge of incompatible values')


def merge_tree(paths, get, depth=0):
    """paths: list of (trace, ...); decision tree merge of get(path)"""
    if len(paths) == 1:
        return get(paths[0])
    while True:
        heads = [p[0][depth] if depth < len(p[0]) else None for p in paths]
        if any(h is None for h in heads):
            raise Unsupported('inconsistent decision tree')
        c = heads[0][0]
        yes = [p for p in paths if p[0][depth][1]]
        no = [p for p in paths if not p[0][depth][1]]
        if any(h[0] is not c for h in heads):
            raise Unsupported('non-deterministic decision order')
        if yes and no:
            return merge_val(c, merge_tree(yes, get, depth + 1), merge_tree(no, get, depth + 1))
        depth += 1


def path_cond(p):
    return tm.and_(*[c if v else tm.not_(c) for c, v in p[0]])
