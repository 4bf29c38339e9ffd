"""self-test of pyvc/sign.py: random terms, random true facts; every derived bound must contain the value"""
import math, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from fractions import Fraction
from pyvc import terms as tm, sign, norm
X = [tm.var('x%d' % i, 'R') for i in range(4)]


def term(r, d):
    k = r.random()
    if d == 0 or k < 0.2:
        return r.choice(X) if r.random() < 0.7 else tm.const(Fraction(r.randint(-6, 6), r.randint(1, 3)))
    if k < 0.45:
        return tm.add(term(r, d - 1), term(r, d - 1))
    if k < 0.65:
        return tm.mul(term(r, d - 1), term(r, d - 1))
    if k < 0.72:
        return tm.power(term(r, d - 1), r.choice([2, 2, 3]))
    if k < 0.8:
        return tm.div(term(r, d - 1), term(r, d - 1))
    if k < 0.85:
        return tm.sqrt(term(r, d - 1))
    if k < 0.9:
        return r.choice([tm.sin, tm.cos, tm.absval])(term(r, d - 1))
    if k < 0.95:
        return tm.fn(r.choice(['log', 'exp']), term(r, d - 1))
    return tm.ite(tm.lt(term(r, d - 1), term(r, d - 1)), term(r, d - 1), term(r, d - 1))


def ev(t, e):
    op, a = t.op, t.args
    if op == 'c': return float(a[0])
    if op == 'b': return a[0]
    if op == 'v': return math.pi if t is tm.PI else e[t]
    if op == 'add': return float(a[0]) + sum(float(k) * ev(x, e) for x, k in a[1])
    if op == 'mul':
        v = 1.0
        for b, k in a: v *= ev(b, e) ** k
        return v
    if op == 'abs': return abs(ev(a[0], e))
    if op == 'ite': return ev(a[1], e) if ev(a[0], e) else ev(a[2], e)
    if op == 'lt': return ev(a[0], e) < 0
    if op == 'le': return ev(a[0], e) <= 0
    if op == 'eq': return ev(a[0], e) == 0
    if op == 'not': return not ev(a[0], e)
    if op == 'and': return all(ev(x, e) for x in a)
    if op == 'or': return any(ev(x, e) for x in a)
    return getattr(math, op)(*[ev(x, e) for x in a])


def main(n, seed):
    r = random.Random(seed)
    bad = done = known = proved = 0
    for _ in range(n):
        e = {x: r.choice([r.uniform(-4, 4), r.uniform(0, 3), float(r.randint(-2, 3))]) for x in X}
        facts = []
        for _ in range(r.randint(1, 6)):
            try:
                a, b = (term(r, 1), term(r, 1)) if r.random() < 0.6 else (term(r, 2), tm.const(r.randint(-3, 3)))
                va, vb = ev(a, e), ev(b, e)
                f = tm.lt(a, b) if va < vb - 1e-9 else tm.le(b, a) if va >= vb and r.random() < 0.5 else tm.lt(b, a) if va > vb + 1e-9 else None
                if f is not None and f.op != 'b' and ev(f, e):
                    facts.append(f)
                if r.random() < 0.2 and abs(va) > 1e-6:
                    facts.append(tm.not_(tm.eq(a, tm.R0)))
            except (ValueError, ZeroDivisionError, OverflowError, TypeError, AttributeError):
                pass
        t = term(r, 3)
        try:
            v = ev(t, e)
            if isinstance(v, complex):
                continue
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, AttributeError):
            continue
        done += 1
        try:
            iv = sign.bound(t, sign.Ctx(facts, time.time() + 2))
        except norm.TooBig:
            continue
        tol = 1e-7 * (1 + abs(v))
        if iv.lo is not None or iv.hi is not None or iv.nz:
            known += 1
        if iv.lo is not None and v < float(iv.lo) - tol or iv.hi is not None and v > float(iv.hi) + tol or iv.nz and v == 0 and not t.op == 'mul':
            bad += 1
            print('BAD', tm.show(t, 9), v, iv, [tm.show(f, 9) for f in facts], {tm.show(k): x for k, x in e.items()})
        for g, truth in ((tm.lt(t, tm.R0), v < -tol), (tm.lt(tm.R0, t), v > tol)):
            if g.op == 'b':
                continue
            if sign.holds(facts, g, time.time() + 2, False):
                proved += 1
                if not truth and abs(v) > tol:
                    bad += 1
                    print('BAD holds', tm.show(g, 9), v, [tm.show(f, 9) for f in facts])
    print('%d terms, %d with a bound, %d signs proved, %d wrong' % (done, known, proved, bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(int(sys.argv[1]) if len(sys.argv) > 1 else 3000, int(sys.argv[2]) if len(sys.argv) > 2 else 1) else 0)
