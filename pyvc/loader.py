"""Mechanical extraction: the Python source in the repository is parsed on every run, rewritten
statement by statement (loops -> closures, literals -> exact reals, ...) and executed by the engine.

What the rewriting drops or changes (nothing else):
  * type annotations of function parameters/results are dropped;
  * float literals become exact decimal rationals, '/' becomes exact division;
  * list literals/comprehensions become engine lists; for/while loops become calls of the loop rule;
  * every module-level function and method is wrapped so that a registered contract can stand for it.
"""
import ast
import builtins
import functools
import os
import sys
import types
import warnings
from fractions import Fraction
from . import terms as tm
from . import loops, lists
from .core import CTX, S, Unsupported, lift, num, wrap, tob, sdiv
from .arr import Arr, dim, it, real_to_int, deq, generic
from .lists import SList, SIter, Seg, as_iter, tolist, Poison


# ---------------------------------------------------------------- runtime helpers
class GDict(dict):
    """dictionary that refuses updates from inside a symbolic iteration older than itself"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.depth = CTX.symdepth

    def _chk(self):
        if CTX.symdepth > self.depth:
            raise Unsupported('dictionary update in a symbolic loop')

    def __setitem__(self, k, v):
        self._chk()
        super().__setitem__(k, v)

    def update(self, *a, **k):
        self._chk()
        super().update(*a, **k)

    def copy(self):
        return GDict(self)


class RT:
    BREAK = loops.BREAK
    CONT = loops.CONT
    Ret = loops.Ret
    for_ = staticmethod(loops.for_)
    while_ = staticmethod(loops.while_)
    listcomp = staticmethod(loops.listcomp)

    @staticmethod
    def K(s):
        return S(tm.const(Fraction(s), 'R'))

    @staticmethod
    def L(items):
        return SList(items)

    @staticmethod
    def D(d):
        return GDict(d)

    @staticmethod
    def div(a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if b == 0:
                raise ZeroDivisionError('division by zero')
            return wrap(sdiv(tm.toreal(num(lift(a))), tm.toreal(num(lift(b)))))
        return a / b

    @staticmethod
    def itruediv(a, b):
        if isinstance(a, Arr):
            a /= b
            return a
        return RT.div(a, b)

    @staticmethod
    def flat(outer):
        out = []
        if outer.symbolic():
            raise Unsupported('nested comprehension over a symbolic range')
        for x in outer:
            out.extend(tolist(x).parts)
        return SList(out)

    @staticmethod
    def setattr(o, name, v):
        if CTX.symdepth:
            b = CTX.born.get(id(o))
            if b is None or b[1] < CTX.symdepth:
                raise Unsupported('attribute store in a symbolic loop')
        setattr(o, name, v)

    @staticmethod
    def wrap(qual):
        def deco(fn):
            if not isinstance(fn, types.FunctionType):
                return fn
            isinit = fn.__name__ in ('__init__', '__post_init__')

            @functools.wraps(fn)
            def wrapper(*a, **k):
                if isinit and a:
                    CTX.born[id(a[0])] = (a[0], CTX.symdepth)
                c = CTX.contracts.get(qual)
                if c is not None:
                    CTX.calls[qual] = CTX.calls.get(qual, 0) + 1
                    return c(fn, *a, **k)
                CTX.executed.add(qual)
                d = CTX.spec_depth
                CTX.spec_depth = 0
                try:
                    return fn(*a, **k)
                finally:
                    CTX.spec_depth = d
            wrapper._pyvc_fn = fn
            return wrapper
        return deco


# ---------------------------------------------------------------- builtins seen by the code
def len_(x):
    if isinstance(x, Arr):
        if not x._shape:
            raise TypeError('len() of unsized object')
        return lists.pyint(x._shape[0])
    if isinstance(x, SList):
        return lists.pyint(x.length())
    if isinstance(x, SIter):
        return lists.pyint(x.n)
    return builtins.len(x)


def _seq_fold(xs, f, name):
    n, g = as_iter(xs)
    if isinstance(n, int):
        vals = [g(i) for i in range(n)]
        if not vals:
            raise ValueError('%s() arg is an empty sequence' % name)
        r = vals[0]
        for v in vals[1:]:
            r = _mm(name, r, v)
        return r
    if not CTX.decide(tm.lt(tm.I0, it(n))):
        raise ValueError('%s() arg is an empty sequence' % name)
    t = tm.fresh('m', 'I')
    v = lift(generic([(t, n)], lambda: g(t)))
    if v is None or v.sort == 'B':
        raise Unsupported(name)
    if v.sort == 'I':
        raise Unsupported('integer ' + name)
    return wrap(tm.mkmax(t, it(n), v)) if name == 'max' else wrap(tm.neg(tm.mkmax(t, it(n), tm.neg(v))))


def _mm(name, a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        if isinstance(a, str) and isinstance(b, str):
            return builtins.max(a, b) if name == 'max' else builtins.min(a, b)
        raise Unsupported(name + ' of non-scalars')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return builtins.max(a, b) if name == 'max' else builtins.min(a, b)
    c = CTX.simp(tm.le(num(y), num(x)) if name == 'max' else tm.le(num(x), num(y)))
    return wrap(CTX.simp(tm.ite(c, num(x), num(y))))


def max_(*a, **k):
    if k:
        raise Unsupported('max with keyword')
    if builtins.len(a) == 1:
        return _seq_fold(a[0], None, 'max')
    return _seq_fold(a, None, 'max')


def min_(*a, **k):
    if k:
        raise Unsupported('min with keyword')
    if builtins.len(a) == 1:
        return _seq_fold(a[0], None, 'min')
    return _seq_fold(a, None, 'min')


def sum_(xs, start=0):
    n, g = as_iter(xs)
    if isinstance(n, int):
        r = start
        for i in range(n):
            r = r + g(i)
        return r
    t = tm.fresh('m', 'I')
    v = generic([(t, n)], lambda: lists.freeze(g(t)), 0)
    if isinstance(v, Arr):
        from .arr import build
        r = build(v._shape, v.kind, lambda i: tm.mksum(t, it(n), v.read(i)))
        return start + r
    v = num(lift(v))
    if v.sort == 'I':
        if t in v.fv:
            raise Unsupported('integer sum')
        return start + wrap(tm.mul(it(n), v))
    return start + wrap(tm.mksum(t, it(n), v))


def _quant(xs, name):
    n, g = as_iter(xs)
    if isinstance(n, int):
        for i in range(n):
            b = bool(g(i))
            if name == 'any' and b:
                return True
            if name == 'all' and not b:
                return False
        return name == 'all'
    t = tm.fresh('m', 'I')
    v = tob(lift(generic([(t, n)], lambda: g(t), False)))
    return wrap((tm.exists if name == 'any' else tm.forall)(t, it(n), v))


def int_(x=0, *a):
    if isinstance(x, (str, bytes)) or a:
        return builtins.int(x, *a)
    if isinstance(x, Arr):
        x = wrap(x.read((0,) * x.ndim))
    t = lift(x)
    if t is None:
        return builtins.int(x)
    t = num(t)
    if t.sort == 'I':
        return wrap(t)
    t = CTX.simp(t)
    y = real_to_int(t)
    if y is not None:
        return wrap(CTX.simp(y))
    # rational combination of integers: truncation = floor for non-negative values
    c, its = tm._lin(t)
    den = c.denominator
    from math import gcd
    for _, k in its:
        den = den * k.denominator // gcd(den, k.denominator)
    y = real_to_int(tm.scale(den, t))
    if y is not None:
        if CTX.decide(tm.le(tm.I0, y)):
            return wrap(CTX.simp(tm.idiv(y, tm.const(den, 'I'))))
        raise Unsupported('int() of a negative quotient')
    y = _int_quot(t)
    if y is not None:
        return y
    return wrap(tm.app('@trunc', (t,), 'I'))


def _int_quot(t):
    """int(a/b) for integer a, b"""
    if t.op == 'mul':
        nm, dn = [], []
        for b, e in t.args:
            y = real_to_int(b)
            if y is None:
                return None
            (nm if e > 0 else dn).append(tm.power(y, abs(e)))
        a = tm.mul(*nm) if nm else tm.I1
        b = tm.mul(*dn) if dn else tm.I1
        if CTX.entails(tm.lt(tm.I0, b)) and CTX.entails(tm.le(tm.I0, a)):
            return wrap(CTX.simp(tm.idiv(a, b)))
    if t.op == 'add' and len(t.args[1]) == 1 and t.args[0] == 0:
        x, k = t.args[1][0]
        if k.numerator == 1 and x.op == 'mul':
            nm, dn = [], [tm.const(k.denominator, 'I')]
            for b, e in x.args:
                y = real_to_int(b)
                if y is None:
                    return None
                (nm if e > 0 else dn).append(tm.power(y, abs(e)))
            a = tm.mul(*nm) if nm else tm.I1
            b = tm.mul(*dn)
            if CTX.entails(tm.lt(tm.I0, b)) and CTX.entails(tm.le(tm.I0, a)):
                return wrap(CTX.simp(tm.idiv(a, b)))
    return None


def float_(x=0.0):
    if isinstance(x, str):
        return RT.K(x)
    if isinstance(x, Arr):
        return wrap(tm.toreal(num(x.read((0,) * x.ndim))))
    t = lift(x)
    if t is None:
        raise TypeError("float() argument must be a string or a real number")
    return wrap(tm.toreal(num(t)))


def abs_(x):
    if isinstance(x, int):
        return builtins.abs(x)
    return x.__abs__()


def pow_(a, b, *m):
    if m:
        raise Unsupported('pow with modulus')
    return a ** b


def sorted_(x, **k):
    n, g = as_iter(x)
    if isinstance(n, int):
        xs = [g(i) for i in range(n)]
        if all(isinstance(v, (int, str)) for v in xs):
            return SList(builtins.sorted(xs, **k))
    raise Unsupported('sorted')


def isinstance_(o, cls):
    if isinstance(cls, tuple):
        return builtins.any(isinstance_(o, c) for c in cls)
    if builtins.isinstance(o, S):
        if cls is builtins.float or cls is float_:
            return o.t.sort == 'R'
        if cls is builtins.int or cls is int_:
            return o.t.sort in ('I', 'B')
        if cls is builtins.bool:
            return o.t.sort == 'B'
        return builtins.isinstance(o, cls) if builtins.isinstance(cls, type) else False
    if cls is list_:
        return builtins.isinstance(o, (SList, list))
    if cls is tuple_:
        return builtins.isinstance(o, tuple)
    if cls is float_:
        cls = float
    if cls is int_:
        cls = int
    if not builtins.isinstance(cls, type):
        raise Unsupported('isinstance with %r' % (cls,))
    return builtins.isinstance(o, cls)


def list_(x=()):
    return SList(tolist(x).parts) if not builtins.isinstance(x, dict) else SList(list(x))


def tuple_(x=()):
    if builtins.isinstance(x, SList) and x.symbolic() or isinstance(x, SIter) and not isinstance(x.n, int):
        return tolist(x)
    if isinstance(x, Arr):
        return tuple_(tolist(x)) if not isinstance(x._shape[0], int) else builtins.tuple(x)
    return builtins.tuple(x)


def print_(*a, **k):
    return None


def make_builtins(imp):
    b = dict(vars(builtins))
    b.update(len=len_, range=lists.range_, zip=lists.zip_, enumerate=lists.enumerate_, reversed=lists.reversed_,
             map=lists.map_, max=max_, min=min_, sum=sum_, any=lambda x: _quant(x, 'any'), all=lambda x: _quant(x, 'all'),
             int=int_, float=float_, abs=abs_, pow=pow_, sorted=sorted_, isinstance=isinstance_, list=list_,
             tuple=tuple_, print=print_, dict=GDict, __import__=imp)

    def no(name):
        def f(*a, **k):
            raise Unsupported('builtin %s' % name)
        return f
    for n in ('open', 'exec', 'eval', 'input', 'compile', 'round', 'divmod', 'iter', 'next', 'filter'):
        b[n] = no(n)
    return b


# ---------------------------------------------------------------- source transformation
def _assigned(nodes):
    """names bound by statements (not descending into nested function/class scopes)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)
        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n): pass

        def _comp(self, n):
            # iteration variables of comprehensions are local to them; walrus targets are not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.visit(x.target)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_alias(self, n):
            nm = (n.asname or n.name).split('.')[0]
            if nm not in out:
                out.append(nm)
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _has_yield(fn):
    for s in fn.body:
        for n in _walk_scope(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
    return False


def _walk_scope(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        yield from _walk_scope(c)


def _rt(attr):
    return ast.Attribute(value=ast.Name('_rt_', ast.Load()), attr=attr, ctx=ast.Load())


def _call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def _name(n):
    return ast.Name(n, ast.Load())


def _args(*names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.path = []
        self.scope = ['module']       # 'module' | 'class' | 'func' | 'gen'
        self.inloop = 0               # depth of loop closures in the current function
        self.k = 0
        self.globals = [set()]
        self.loopctx = []

    def uid(self):
        self.k += 1
        return self.k

    # ---- expressions
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(_call(_rt('K'), ast.Constant(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(_call(_rt('div'), n.left, n.right), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call(_rt('L'), n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(_call(_rt('D'), n), n)

    def _lam(self, target, body):
        """lambda taking one value destructured as target"""
        if isinstance(target, ast.Name):
            return ast.Lambda(args=_args(target.id), body=body)
        if isinstance(target, (ast.Tuple, ast.List)):
            names = []
            inner = body
            subs = []
            for e in target.elts:
                if isinstance(e, ast.Name):
                    names.append(e.id)
                elif isinstance(e, (ast.Tuple, ast.List)):
                    nm = '_rtt%d' % self.uid()
                    names.append(nm)
                    subs.append((nm, e))
                else:
                    return None
            for nm, e in reversed(subs):
                l = self._lam(e, inner)
                if l is None:
                    return None
                inner = _call(l, _name(nm))
            v = '_rtv%d' % self.uid()
            return ast.Lambda(args=_args(v), body=ast.Call(
                func=ast.Lambda(args=_args(*names), body=inner), args=[ast.Starred(_name(v), ast.Load())], keywords=[]))
        return None

    def _comp(self, n, elt, gens):
        g = gens[0]
        if g.is_async:
            return None
        inner = elt if len(gens) == 1 else self._comp(n, elt, gens[1:])
        if inner is None:
            return None
        f = self._lam(g.target, inner)
        if f is None:
            return None
        import copy
        cs = [self._lam(copy.deepcopy(g.target), c) for c in g.ifs]
        r = _call(_rt('listcomp'), g.iter, f, ast.Tuple(cs, ast.Load()))
        if len(gens) > 1:
            r = _call(_rt('flat'), r)
        return r

    def visit_ListComp(self, n):
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        self.generic_visit(n)
        r = self._comp(n, n.elt, n.generators)
        return ast.copy_location(r, n) if r is not None else n
    visit_GeneratorExp = visit_ListComp

    # ---- statements
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign(targets=[n.target], value=_call(_rt('itruediv'), load, n.value)), n)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and self.scope[-1] in ('func', 'gen'):
            t = n.targets[0]
            attr = t.attr
            cls = next((p for p, s in reversed(list(zip(self.path, self.scope[1:]))) if s == 'class'), None)
            if attr.startswith('__') and not attr.endswith('__') and cls:
                attr = '_' + cls.lstrip('_') + attr
            return ast.copy_location(ast.Expr(_call(_rt('setattr'), t.value, ast.Constant(attr), n.value)), n)
        return n

    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Global(self, n):
        self.globals[-1].update(n.names)
        return n

    def visit_ClassDef(self, n):
        self.path.append(n.name)
        self.scope.append('class')
        n.body = [self._st(s) for s in n.body]
        n.body = [x for s in n.body for x in (s if isinstance(s, list) else [s])]
        self.scope.pop()
        self.path.pop()
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        return n

    def _st(self, s):
        return self.visit(s)

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    def visit_FunctionDef(self, n):
        outer = self.scope[-1]
        qual = '.'.join(self.path + [n.name])
        decos = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.returns = None
        gen = _has_yield(n)
        self.path.append(n.name)
        self.scope.append('gen' if gen else 'func')
        self.globals.append(set())
        for s in n.body:
            for x in _walk_scope(s):
                if isinstance(x, ast.Global):
                    self.globals[-1].update(x.names)
        nonloc = {y for s in n.body for x in _walk_scope(s) if isinstance(x, ast.Nonlocal) for y in x.names}
        argn = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
        names = [x for x in _assigned(n.body) if x not in self.globals[-1] and x not in nonloc and x not in argn]
        save = self.loopctx
        self.loopctx = []
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loopctx = save
        self.scope.pop()
        self.globals.pop()
        self.path.pop()
        if not gen and names:
            pre = ast.If(test=ast.Constant(0), body=[ast.Assign(targets=[ast.Name(x, ast.Store())], value=ast.Constant(None)) for x in names], orelse=[])
            i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
            body.insert(i, pre)
        n.body = body
        if outer in ('module', 'class'):
            decos.append(_call(_rt('wrap'), ast.Constant(self.mod + ':' + qual)))
        n.decorator_list = decos
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.loopctx:
            return ast.copy_location(ast.Return(_call(_rt('Ret'), n.value or ast.Constant(None))), n)
        return n

    def visit_Break(self, n):
        if self.loopctx and self.scope[-1] == 'func':
            return ast.copy_location(ast.Return(_rt('BREAK')), n)
        return n

    def visit_Continue(self, n):
        if self.loopctx and self.scope[-1] == 'func':
            return ast.copy_location(ast.Return(_rt('CONT')), n)
        return n

    def _loop(self, n, kind):
        if self.scope[-1] != 'func':
            self.generic_visit(n)
            return n
        names = _assigned(([n.target] if kind == 'for' else []) + n.body)
        glob = [x for x in names if x in self.globals[-1]]
        names = [x for x in names if x not in self.globals[-1]]
        k = self.uid()
        it_expr = self.visit(n.iter) if kind == 'for' else None
        test = self.visit(n.test) if kind == 'while' else None
        self.loopctx.append(k)
        body = []
        if kind == 'for':
            tgt = self.visit(n.target)
            body.append(ast.Assign(targets=[tgt], value=_name('_rt_it%d' % k)))
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.loopctx.pop()
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        decl = ([ast.Nonlocal(names)] if names else []) + ([ast.Global(glob)] if glob else [])
        fb = '_rt_body%d' % k
        out = [ast.FunctionDef(name=fb, args=_args(*(['_rt_it%d' % k] if kind == 'for' else [])), body=decl + body,
                               decorator_list=[], returns=None, type_params=[])]
        spec = []
        for j, x in enumerate(names):
            sn, dn = '_rt_s%d_%d' % (k, j), '_rt_d%d_%d' % (k, j)
            out.append(ast.FunctionDef(name=sn, args=_args('_rt_v'), body=[
                ast.Nonlocal([x]), ast.Assign(targets=[ast.Name(x, ast.Store())], value=_name('_rt_v'))],
                decorator_list=[], returns=None, type_params=[]))
            out.append(ast.FunctionDef(name=dn, args=_args(), body=[
                ast.Nonlocal([x]), ast.Delete([ast.Name(x, ast.Del())])], decorator_list=[], returns=None, type_params=[]))
            spec.append(ast.Tuple([ast.Constant(x), ast.Lambda(args=_args(), body=_name(x)), _name(sn), _name(dn)], ast.Load()))
        res = '_rt_r%d' % k
        if kind == 'for':
            call = _call(_rt('for_'), it_expr, _name(fb), ast.Tuple(spec, ast.Load()))
        else:
            call = _call(_rt('while_'), ast.Lambda(args=_args(), body=test), _name(fb), ast.Tuple(spec, ast.Load()))
        out.append(ast.Assign(targets=[ast.Name(res, ast.Store())], value=call))
        isret = _call(_name('_rt_isret_'), _name(res))
        rv = _name(res) if self.loopctx else ast.Attribute(value=_name(res), attr='v', ctx=ast.Load())
        out.append(ast.If(test=isret, body=[ast.Return(rv)], orelse=[]))
        if orelse:
            out.append(ast.If(test=ast.Compare(_name(res), [ast.IsNot()], [_rt('BREAK')]), body=orelse, orelse=[]))
        for o in out:
            ast.copy_location(o, n)
        return out

    def visit_For(self, n):
        return self._loop(n, 'for')

    def visit_While(self, n):
        return self._loop(n, 'while')


# ---------------------------------------------------------------- module loading
NATIVE = {'typing', 'dataclasses', 'abc', 'os', 'os.path', 'sys', 'time', 'enum', 'functools', 'warnings', 'logging', 'collections',
          '__future__', 'types', 'argparse', 'importlib', 'importlib.util', 'pathlib', 'copy', 'json', 'shutil', 'string', 're',
          'textwrap', 'numbers', 'datetime', 'operator', 'contextlib', 'inspect'}


class Stub:
    """library outside the verifier's reach: importable, unusable"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, a):
        if a.startswith('__') and a not in ('__call__',):
            raise AttributeError(a)
        return Stub(self._n + '.' + a)

    def __call__(self, *a, **k):
        raise Unsupported('call of %s' % self._n)

    def __getitem__(self, k):
        return self

    def __mro_entries__(self, bases):
        return (object,)


class Loader:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.builtins = make_builtins(self.import_)
        from . import shim_np, shims
        self.shims = shims.table()
        self.sources = {}

    def find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p):
            return None, True
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        path, pkg = self.find(name)
        if path is None and not pkg:
            raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = []
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_rt_'] = RT
        m.__dict__['_rt_isret_'] = lambda r: type(r) is loops.Ret
        self.mods[name] = m
        sys.modules[name] = m
        try:
            if path:
                src = open(path).read()
                self.sources[path] = src
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, path)
                tree = Transform(name).visit(tree)
                ast.fix_missing_locations(tree)
                code = compile(tree, path, 'exec', dont_inherit=True)
                exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            sys.modules.pop(name, None)
            raise
        if '.' in name:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            name = pk + '.' + name if name else pk
        top = name.split('.')[0]
        if self.find(top)[0] is not None or self.find(top)[1]:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != '*':
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if name in self.shims:
            return self.shims[name] if fromlist else self.shims[top]
        if top in self.shims:
            m = self.shims[top]
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m if fromlist else self.shims[top]
        if top in NATIVE:
            return builtins.__import__(name, None, None, fromlist, 0)
        return Stub(name if fromlist else top)
