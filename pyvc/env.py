"""Deterministic valuations of the symbolic inputs (shared by the prover's sampling and by the replay on the real code)."""
import hashlib


class Undefined(Exception):
    pass


DEFNS = {}     # app name -> callable(env, *args): numeric meaning of opaque spec applications


class Env:
    """vars: name -> number; fns: name -> (table, default) overrides; otherwise hash-random through gen"""

    def __init__(self, seed=0, vars=None, fns=None, gen=None, used=None):
        self.seed = seed
        self.vars = dict(vars or {})
        self.fns = fns or {}
        self.gen = gen if gen is not None else {}
        self.used = dict(used or {})

    def u(self, name, args=()):
        h = hashlib.blake2b(repr((self.seed, name, tuple(args))).encode(), digest_size=8).digest()
        return int.from_bytes(h, 'big') / 2.0 ** 64

    def rnd(self, name, args, sort):
        u = self.u(name, args)
        if sort == 'I':
            return int(u * 4) + 1
        if sort == 'B':
            return u < 0.5
        return round((u - 0.5) * 6, 3)

    def named(self, name, sort):
        if name in self.vars:
            return self.vars[name]
        g = self.gen.get(name)
        v = g(self, name, ()) if g else self.rnd(name, (), sort)
        self.vars[name] = v
        return v

    def var(self, t):
        return self.named(t.args[0], t.sort)

    def app(self, name, args, sort):
        if name in DEFNS:
            return DEFNS[name](self, *args)
        key = (name, args)
        if key in self.used:
            return self.used[key]
        f = self.fns.get(name)
        v = None
        if f:
            v = f[0].get(args)
        if v is None:
            g = self.gen.get(name)
            v = g(self, name, args) if g else self.rnd(name, args, sort)
        self.used[key] = v
        return v

    def dump(self):
        return {'seed': repr(self.seed), 'vars': self.vars,
                'used': [[k[0], list(k[1]), v] for k, v in self.used.items()],
                'fns': {n: [[list(k), v] for k, v in tab.items()] for n, (tab, _) in self.fns.items()}}

    @staticmethod
    def restore(d):
        import ast
        return Env(ast.literal_eval(d['seed']), d['vars'], {n: ({tuple(k): v for k, v in tab}, None) for n, tab in d.get('fns', {}).items()},
                   used={(n, tuple(a)): v for n, a, v in d['used']})


# ---------------------------------------------------------------- generators
POOL = []      # literals harvested from the source under test


def gen_real(lo=None, hi=None, specials=(), wide=None):
    """real generator; the style depends on the valuation's seed; wide: the assumed bounds, where the usual ones lo, hi are narrower"""
    if wide is not None:
        usual, far = gen_real(lo, hi, specials), gen_real(wide[0], wide[1])
        return lambda env, name, args: (far if env.u('@wide') < 0.25 and env.u(name + '@wide') < 0.6 else usual)(env, name, args)

    def g(env, name, args):
        if len(args) == 1 and env.u('@tie') < 0.15 and env.u(name + '@tie') < 0.6:      # repeated values in a sequence
            args = (int(env.u(name + '@t', args) * 2),)
        st = int(env.u('@style') * 12)
        if st >= 10 and lo is None and hi is None:
            return near(env, name, args, st)
        st %= 10
        u = env.u(name, args)
        w = env.u(name + '@w', args)
        a = -3.0 if lo is None else lo
        b = (3.0 if lo is None else lo + 3.0) if hi is None else hi
        if specials and w < 0.25:
            return specials[int(u * len(specials))]
        if st == 7:        # small integers
            v = float(round(a + u * (b - a)))
        elif st == 8 and POOL and w < 0.5:
            v = POOL[int(u * len(POOL))]
            v = v * (1 + (int(env.u(name + '@k', args) * 5) - 2) * 1e-3)
        elif st == 9 and hi is None:       # wide range
            v = (-1 if w < 0.5 and lo is None else 1) * 10.0 ** (u * 5 - 2.5)
            if lo is not None:
                v += lo
        else:
            v = round(a + u * (b - a), 4)
        if lo is not None and v < lo:
            v = lo + abs(v - lo)
        if hi is not None and v > hi:
            v = lo + (v - lo) % (hi - lo) if lo is not None else hi - abs(v - hi)
        return v
    return g


def near(env, name, args, st):
    """all values of the valuation of one small or large scale, or clustered around a few values"""
    u, e = env.u(name, args), env.u('@scale')
    if st == 10:
        return (u * 6 - 3) * 10.0 ** (e * 8 - 5)
    c = args[-1] if args else 'c'
    b = round(6 * env.u('@base', (c,)) - 3, 3) + int(2 * env.u('@of' + name, args[:-1])) * (1.0 + c if args else 1.0)
    if env.u(name + '@w', args) < 0.2:
        return b
    return b + (u - 0.5) * 10.0 ** (-1 - e * 5)


def gen_dim(lo, hi, big):
    """sizes: mostly small, now and then one larger than usual"""
    g = gen_int(lo, hi)

    def f(env, name, args):
        if big and env.u('@big') < 0.12 and env.u(name + '@big') < 0.5:
            return lo + int(env.u(name) ** 2 * (big - lo + 1))
        return g(env, name, args)
    return f


def gen_inc(lo, hi, dim=None):
    """increasing sequence from lo, below hi for up to 12 entries; with dim, the name of its length, mostly all the way to hi"""
    def g(env, name, args):
        st = (hi - lo) / 16.0
        if isinstance(dim, str) and env.u(name + '@span') < 0.8:
            n = int(env.named(dim, 'I'))
            if args[-1] >= n - 1 > 0:
                return hi
            st = (hi - lo) / max(1, n - 1)
        return round(lo + (args[-1] + 0.7 * env.u(name, args)) * st, 5) if args[-1] else lo
    return g


def gen_int(lo, hi):
    def g(env, name, args):
        st = env.u('@istyle')
        u = env.u(name, args)
        if st < 0.3:
            return min(hi, lo + int(u * 2))
        return lo + int(u * (hi - lo + 1))
    return g


def gen_bool(p=0.5):
    def g(env, name, args):
        return env.u(name, args) < p
    return g
