"""Interval evaluation of value graphs at single points with many digits.

Used where double-precision enclosures of a deep computation (long iterations) grow
too wide to tell two values apart.  Outward rounding throughout; values: (lo, hi)
Decimals, True/False, or None when an operation is not covered or undecided."""
import math
from decimal import Context, Decimal, ROUND_CEILING, ROUND_FLOOR, ROUND_HALF_EVEN, DecimalException

from . import ir

PI100 = "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798"


class Ev:
    def __init__(self, prec):
        mk = lambda r: Context(prec=prec, rounding=r, Emin=-999999, Emax=999999)
        self.d, self.u, self.n = mk(ROUND_FLOOR), mk(ROUND_CEILING), mk(ROUND_HALF_EVEN)
        self.prec = prec
        p = Decimal(PI100)
        self.pi = (p - Decimal("1e-98"), p + Decimal("1e-98"))

    def widen(self, x):
        return (self.n.next_minus(x), self.n.next_plus(x))

    def mul(self, a, b):
        ps = [(x, y) for x in a for y in b]
        return (min(self.d.multiply(x, y) for x, y in ps), max(self.u.multiply(x, y) for x, y in ps))

    def div(self, a, b):
        if b[0] <= 0 <= b[1]:
            return None
        ps = [(x, y) for x in a for y in b]
        return (min(self.d.divide(x, y) for x, y in ps), max(self.u.divide(x, y) for x, y in ps))

    def ipow(self, a, k):
        if k < 0:
            p = self.ipow(a, -k)
            return p and self.div((Decimal(1), Decimal(1)), p)
        if k == 0:
            return (Decimal(1), Decimal(1))
        if k % 2 == 0 and a[0] < 0:
            a = (-a[1], -a[0]) if a[1] <= 0 else (Decimal(0), max(-a[0], a[1]))
        r = a
        for _ in range(k - 1):
            r = self.mul(r, a)
        return r

    def exp(self, a):
        if a[1] > 50000 or a[0] < -50000:
            return None
        return (self.widen(self.n.exp(a[0]))[0], self.widen(self.n.exp(a[1]))[1])

    def log(self, a):
        if a[0] <= 0:
            return None
        return (self.widen(self.n.ln(a[0]))[0], self.widen(self.n.ln(a[1]))[1])

    def sqrt(self, a):
        if a[0] < 0:
            return None
        l, h = self.n.sqrt(a[0]), self.n.sqrt(a[1])
        return (max(Decimal(0), self.widen(l)[0]), self.widen(h)[1] if h else h)

    def pow(self, a, q):
        if q.denominator == 1 and abs(q) < 60:
            return self.ipow(a, int(q))
        if q.denominator == 2 and abs(q) < 60:
            r = self.sqrt(a)
            return r and self.ipow(r, int(q * 2))
        l = self.log(a)
        return l and self.exp(self.mul(l, self.frac(q)))

    def frac(self, q):
        n, d = Decimal(q.numerator), Decimal(q.denominator)
        return (self.d.divide(n, d), self.u.divide(n, d))

    def step(self, n, memo, pt):
        op = n.op
        if op == "const":
            return self.frac(n.data[0])
        if op == "sym":
            v = pt.get(n.data[0])
            if v is None or v[0] != v[1]:
                return None
            return (Decimal(v[0]), Decimal(v[0]))
        if op == "pi":
            return self.pi
        if op == "true":
            return True
        if op == "false":
            return False
        a = [memo[x.id] for x in n.args]
        if op == "sel":
            return a[1] if a[0] is True else a[2] if a[0] is False else None
        if op == "and":
            return False if False in [x for x in a if isinstance(x, bool)] else True if a[0] is True and a[1] is True else None
        if op == "or":
            return True if True in [x for x in a if isinstance(x, bool)] else False if a[0] is False and a[1] is False else None
        if op == "not":
            return None if a[0] is None else not a[0]
        if not a or any(x is None for x in a):
            return None
        a = [(Decimal(int(x)),) * 2 if isinstance(x, bool) else x for x in a]
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if op == "isnan":
            return False
        if op == "isfin":
            return True
        if op == "lt":
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        if op == "le":
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        if op == "eq":
            return False if x[1] < y[0] or y[1] < x[0] else True if x[0] == x[1] == y[0] == y[1] else None
        if op == "add":
            return (self.d.add(x[0], y[0]), self.u.add(x[1], y[1]))
        if op == "sub":
            return (self.d.subtract(x[0], y[1]), self.u.subtract(x[1], y[0]))
        if op == "mul":
            return self.ipow(x, 2) if n.args[0] is n.args[1] else self.mul(x, y)
        if op == "div":
            return self.div(x, y)
        if op in ("flt", "real", "conj"):
            return x
        if op == "neg":
            return (-x[1], -x[0])
        if op == "pow":
            e = ir.cval(n.args[1])
            if e is not None:
                return self.pow(x, e)
            l = self.log(x)
            return l and self.exp(self.mul(l, y))
        if op == "exp":
            return self.exp(x)
        if op == "log":
            return self.log(x)
        if op == "abs":
            return x if x[0] >= 0 else (-x[1], -x[0]) if x[1] <= 0 else (Decimal(0), max(-x[0], x[1]))
        if op == "min2":
            return (min(x[0], y[0]), min(x[1], y[1]))
        if op == "max2":
            return (max(x[0], y[0]), max(x[1], y[1]))
        return None


def evaluate(roots, pt, prec=120):
    """enclosures (floats) of real roots at the point (None where not available), and the largest intermediate magnitude"""
    ev = Ev(prec)
    memo = {}
    for n in ir.topo(roots):
        try:
            v = None if n.kind == "c" else ev.step(n, memo, pt)
        except DecimalException:
            v = None
        memo[n.id] = v
    big = 0.0
    for v in memo.values():
        if isinstance(v, tuple):
            big = max(big, abs(float(v[0])), abs(float(v[1])))
    out = []
    for r in roots:
        v = memo[r.id]
        if isinstance(v, tuple) and abs(v[0]) < Decimal("1e300") and abs(v[1]) < Decimal("1e300"):
            l, h = float(v[0]), float(v[1])
            out.append((math.nextafter(l, -math.inf), math.nextafter(h, math.inf)))
        else:
            out.append(None)
    return out, big
