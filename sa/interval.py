"""Interval abstract domain over the value graph.

A value is one of
  (lo, hi)        every concrete result is a real number in [lo, hi]
  ('c', re, im)   complex rectangle
  NAN             every concrete result is NaN
  RAISE           evaluation raises
  TRUE/FALSE      decided condition
  None            unknown (anything)
All roundings go outwards, so a statement decided here holds for every input of
the box.  Undecided results stay None and never raise an alarm.
"""
import math
from . import ir

INF = math.inf
NAN = "nan"
RAISE = "raise"
T = True
F = False
na = math.nextafter


def dn(x):
    return na(x, -INF)


def up(x):
    return na(x, INF)


def dn2(x):
    return na(na(x, -INF), -INF)


def up2(x):
    return na(na(x, INF), INF)


def isreal(v):
    return type(v) is tuple and len(v) == 2


def iscplx(v):
    return type(v) is tuple and len(v) == 3


ZERO = (0.0, 0.0)
ONE = (1.0, 1.0)
PI = (dn(math.pi), up(math.pi))
_fc = {}


def fromfrac(q):
    r = _fc.get(q)
    if r is None:
        try:
            f = float(q)
        except OverflowError:
            r = (1.7e308, INF) if q > 0 else (-INF, -1.7e308)
            _fc[q] = r
            return r
        from fractions import Fraction
        ex = Fraction(f)
        if ex == q:
            r = (f, f)
        elif ex < q:
            r = (f, up(f))
        else:
            r = (dn(f), f)
        _fc[q] = r
    return r


def exinf(a):
    return a[0] == a[1] and abs(a[0]) == INF


def exint(a):
    """a small integer, known exactly: floating point arithmetic on such values does not round"""
    return a[0] == a[1] and abs(a[0]) < 1e6 and a[0] == int(a[0])


def iadd(a, b):
    if exinf(a) and -INF < b[0] and b[1] < INF:
        return a
    if exinf(b) and -INF < a[0] and a[1] < INF:
        return b
    lo, hi = a[0] + b[0], a[1] + b[1]
    if lo != lo or hi != hi:
        return None if not (abs(a[0]) == INF and a[0] == a[1] and abs(b[0]) == INF and b[0] == b[1]) else NAN
    if a == ZERO:
        return b
    if b == ZERO or lo == hi and exint(a) and exint(b):
        return (lo, hi)
    return (dn(lo), up(hi))


def isub(a, b):
    return iadd(a, (-b[1], -b[0]))


def imul(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    if (a == ZERO and abs(b[0]) != INF and abs(b[1]) != INF) or (b == ZERO and abs(a[0]) != INF and abs(a[1]) != INF):
        return ZERO
    for x, y in ((a, b), (b, a)):
        if exinf(x) and (y[0] > 0 or y[1] < 0):
            return x if y[0] > 0 else (-x[1], -x[0])
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    lo, hi = min(p), max(p)
    for x in p:
        if x != x:
            if a[0] == a[1] and b[0] == b[1]:
                return NAN
            return None
    if lo == hi and exint(a) and exint(b):
        return (lo, hi)
    return (dn(lo), up(hi))


def idiv(a, b):
    if b[0] <= 0.0 <= b[1]:
        if b[0] == 0.0 == b[1]:
            # numpy semantics for an exact zero denominator
            if a[0] > 0:
                return (INF, INF)
            if a[1] < 0:
                return (-INF, -INF)
            if a == ZERO:
                return NAN
        return None
    if abs(b[0]) == INF and b[0] == b[1]:
        if abs(a[0]) == INF or abs(a[1]) == INF:
            return NAN if exinf(a) else None
        return ZERO
    p = (a[0] / b[0], a[0] / b[1], a[1] / b[0], a[1] / b[1])
    for x in p:
        if x != x:
            return None
    if a == ZERO:
        return ZERO
    if exinf(a):
        return a if b[0] > 0 else (-a[1], -a[0])
    return (dn(min(p)), up(max(p)))


def ipow_int(a, n):
    if n == 0:
        return ONE
    if n < 0:
        d = ipow_int(a, -n)
        return None if d is None else NAN if d == NAN else idiv(ONE, d)
    lo, hi = a
    if exinf(a):
        return (INF, INF) if n % 2 == 0 else a
    if exint(a) and n <= 6 and abs(lo) <= 100:
        return (lo ** n, lo ** n)
    try:
        if n % 2 == 0:
            if lo >= 0:
                l, h = lo ** n, hi ** n
            elif hi <= 0:
                l, h = hi ** n, lo ** n
            else:
                l, h = 0.0, max(lo ** n, hi ** n)
            l = 0.0 if l == 0.0 else max(0.0, dn2(l))
            return (l, up2(h) if h != 0.0 else (0.0 if a == ZERO else up2(h)))
        l, h = lo ** n, hi ** n
    except OverflowError:
        return None
    if a == ZERO:
        return ZERO
    return (dn2(l), up2(h))


def ipow(a, q):
    """a real interval, q Fraction"""
    if q.denominator == 1 and abs(q) < 200:
        return ipow_int(a, int(q))
    lo, hi = a
    if hi < 0:
        return NAN
    if lo < 0:
        return None
    if q.numerator == 1 and q.denominator == 2 and not exinf(a):
        return (max(0.0, dn(math.sqrt(lo))) if lo > 0 else 0.0, up(math.sqrt(hi)) if hi > 0 else 0.0)
    if exinf(a):
        return a if q > 0 else ZERO
    e = float(q)
    try:
        if q > 0:
            l = 0.0 if lo == 0 else dn2(lo ** e) * (1 - 4e-16)
            h = 0.0 if hi == 0 else up2(hi ** e) * (1 + 4e-16)
            # exponent rounding
            l, h = _expround(l, h, lo, hi, q, e)
            return (l, h)
        if lo == 0:
            if hi == 0:
                return (INF, INF)
            return None
        l = dn2(hi ** e) * (1 - 4e-16)
        h = up2(lo ** e) * (1 + 4e-16)
        return _expround(l, h, lo, hi, q, e)
    except OverflowError:
        return None


def _expround(l, h, lo, hi, q, e):
    from fractions import Fraction
    if Fraction(e) == q:
        return (l, h)
    m = max(abs(math.log(x)) for x in (lo, hi) if x > 0) if hi > 0 else 0
    d = 1 + 4e-16 * (1 + abs(e) * m)
    return (l / d if l > 0 else l, h * d)


def ipow_gen(a, b):
    """real intervals, symbolic exponent"""
    if a[0] > 0:
        l = ilog(a)
        return iexp(imul(b, l))
    if a == ZERO and b[0] > 0:
        return ZERO
    if a[1] < 0 and abs(b[0]) < 1e6 and abs(b[1]) < 1e6 and math.floor(b[0]) == math.floor(b[1]) and b[0] > math.floor(b[0]):
        return NAN  # negative base, no integer among the exponents
    return None


def iexp(a):
    if a == ZERO:
        return ONE
    try:
        h = math.exp(a[1])
    except OverflowError:
        return None
    return (max(0.0, dn2(math.exp(a[0]))), up2(h))


def ilog(a):
    if a[1] < 0:
        return NAN
    if a[0] <= 0:
        if a == ZERO:
            return (-INF, -INF)
        return None
    if a == ONE:
        return ZERO
    return (dn2(math.log(a[0])), up2(math.log(a[1])) if a[1] != INF else INF)


def icos(a):
    lo, hi = a
    if hi - lo >= 6.2 or abs(lo) > 1e8 or abs(hi) > 1e8:
        return (-1.0, 1.0)
    c1, c2 = math.cos(lo), math.cos(hi)
    l, h = min(c1, c2), max(c1, c2)
    e = 4e-16 * (1 + abs(lo) + abs(hi))
    # extrema at k*pi
    k0 = math.floor(lo / math.pi - 1e-9)
    k1 = math.ceil(hi / math.pi + 1e-9)
    for k in range(k0, k1 + 1):
        x = k * math.pi
        if lo - 1e-9 * (1 + abs(lo)) <= x <= hi + 1e-9 * (1 + abs(hi)) and hi > lo:
            if lo - e <= x <= hi + e:
                if k % 2 == 0:
                    h = 1.0
                else:
                    l = -1.0
    return (max(-1.0, l - e), min(1.0, h + e))


def isin(a):
    if a == ZERO:
        return ZERO
    lo, hi = a
    if abs(lo) < 1 and abs(hi) < 1:
        return (max(-1.0, dn2(math.sin(lo))), min(1.0, up2(math.sin(hi))))
    h = PI[0] / 2
    return icos(iadd(a, (-PI[1] / 2, -PI[0] / 2)))


def itan(a):
    if a == ZERO:
        return ZERO
    s, c = isin(a), icos(a)
    k = math.floor((a[0] + math.pi / 2) / math.pi)
    if math.floor((a[1] + math.pi / 2) / math.pi) == k and c[0] * c[1] > 0 and abs(a[0]) < 1e6:
        e = 4e-16 * (4 + abs(a[0]))
        l, h = math.tan(a[0]), math.tan(a[1])
        return (l - e * (1 + l * l), h + e * (1 + h * h))
    return None


def mono(f, lo0=-INF, hi0=INF, dec=False):
    def g(a):
        lo, hi = a
        if lo > hi0 or hi < lo0:
            return NAN
        if lo < lo0 or hi > hi0:
            return None
        try:
            l, h = f(lo), f(hi)
        except (OverflowError, ValueError):
            return None
        if dec:
            l, h = h, l
        return (dn2(l), up2(h))
    return g


iarcsin = mono(math.asin, -1, 1)
iarccos = mono(math.acos, -1, 1, True)
iarctan = mono(math.atan)


def iarctan2(y, x):
    # only the half plane x>0 or y of one sign is needed
    if x[0] > 0:
        q = idiv(y, x)
        return iarctan(q) if isreal(q) else None
    pts = [math.atan2(p, q) for p in y for q in x]
    if y[0] > 0 or (y[1] < 0):
        return (min(pts) - 1e-15, max(pts) + 1e-15)
    return None


def iabs(a):
    if a[0] >= 0:
        return a
    if a[1] <= 0:
        return (-a[1], -a[0])
    return (0.0, max(-a[0], a[1]))


# ------------------------------------------------------------- complex
def C(v):
    if iscplx(v):
        return v
    return ("c", v, ZERO)


def _ok(*vs):
    return all(isreal(v) for v in vs)


def cadd(a, b):
    r, i = iadd(a[1], b[1]), iadd(a[2], b[2])
    return ("c", r, i) if _ok(r, i) else None


def csub(a, b):
    r, i = isub(a[1], b[1]), isub(a[2], b[2])
    return ("c", r, i) if _ok(r, i) else None


def _sub(x, y):
    return isub(x, y) if _ok(x, y) else None


def _add(x, y):
    return iadd(x, y) if _ok(x, y) else None


def cmul(a, b):
    r = _sub(imul(a[1], b[1]), imul(a[2], b[2]))
    i = _add(imul(a[1], b[2]), imul(a[2], b[1]))
    return ("c", r, i) if _ok(r, i) else None


def cdiv(a, b):
    d = _add(ipow_int(b[1], 2), ipow_int(b[2], 2))
    if b[1] == ZERO and b[2] == ZERO:
        return NAN
    if not _ok(d) or d[0] <= 0:
        return None
    n = cmul(a, ("c", b[1], (-b[2][1], -b[2][0])))
    if n is None:
        return None
    r, i = idiv(n[1], d), idiv(n[2], d)
    return ("c", r, i) if _ok(r, i) else None


def cabs(a):
    s = _add(ipow_int(a[1], 2), ipow_int(a[2], 2))
    if not _ok(s):
        return None
    return (math.sqrt(max(0.0, s[0])) * (1 - 1e-15), math.sqrt(s[1]) * (1 + 1e-15))


def csqrt(a):
    re, im = a[1], a[2]
    m = cabs(a)
    if m is None:
        return None
    # principal root: real part sqrt((|z|+re)/2)
    if re[0] >= 0 or not (im[0] <= 0 <= im[1]):
        s = _add(m, re)
        s2 = _sub(m, re)
        if not _ok(s, s2):
            return None
        if re[0] >= 0 and s[0] > 0:
            u = ipow(imul((max(0.0, s[0]), s[1]), (0.5, 0.5)), ir.HALF.data[0])
            v = idiv(im, imul((2.0, 2.0), u)) if u[0] > 0 else None
        else:
            t = ipow(imul((max(0.0, s2[0]), s2[1]), (0.5, 0.5)), ir.HALF.data[0])
            if not _ok(t) or t[0] <= 0:
                return None
            v = t if im[0] > 0 else (-t[1], -t[0])
            u = idiv(im, imul((2.0, 2.0), v))
        if not _ok(u, v):
            return None
        return ("c", u, v)
    if im == ZERO and re[1] < 0:
        t = ipow((-re[1], -re[0]), ir.HALF.data[0])
        return ("c", ZERO, t)
    return None


def cexp(a):
    m, c, s = iexp(a[1]), icos(a[2]), isin(a[2])
    if not _ok(m, c, s):
        return None
    r, i = imul(m, c), imul(m, s)
    return ("c", r, i) if _ok(r, i) else None


def carg(a):
    return iarctan2(a[2], a[1])


def clog(a):
    m, t = cabs(a), carg(a)
    if not _ok(m, t) or m[0] <= 0:
        return None
    return ("c", ilog(m), t)


def cpow(a, q):
    if q.denominator == 1 and abs(q) < 60:
        n = abs(int(q))
        r = C(ONE)
        for _ in range(n):
            r = cmul(r, a)
            if r is None:
                return None
        return r if q >= 0 else cdiv(C(ONE), r)
    if q == ir.HALF.data[0]:
        return csqrt(a)
    l = clog(a)
    if l is None:
        return None
    e = fromfrac(q)
    return cexp(("c", imul(l[1], e), imul(l[2], e)))


def bessel_j(n, z):
    """power series of J_n over a complex rectangle, moderate |z|"""
    m = cabs(z)
    if m is None or m[1] > 12 or n not in (0, 1):
        return None
    h = cmul(z, C((0.5, 0.5)))
    h2 = cmul(h, h)
    if h2 is None:
        return None
    h2 = ("c", (-h2[1][1], -h2[1][0]), (-h2[2][1], -h2[2][0]))
    term = C(ONE) if n == 0 else h
    s = term
    K = 40
    for k in range(1, K):
        term = cmul(term, h2)
        if term is None:
            return None
        d = float(k * (k + n))
        term = cdiv(term, C((d, d)))
        s = cadd(s, term)
        if term is None or s is None:
            return None
    t = cabs(term)[1] * 2 + 1e-18
    return ("c", iadd(s[1], (-t, t)), iadd(s[2], (-t, t)))


# ------------------------------------------------------------- matrices
def matinv(es, n):
    """interval Gauss-Jordan; None when a pivot may vanish"""
    if any(not (isreal(e) or iscplx(e)) for e in es):
        return None
    cplx = any(iscplx(e) for e in es)
    if cplx:
        es = [C(e) for e in es]
        one, zero = C(ONE), C(ZERO)
        sub = lambda a, b: csub(a, b)
        mul, div, mag = cmul, cdiv, lambda v: cabs(v)
    else:
        one, zero = ONE, ZERO
        sub, mul, div, mag = isub, imul, idiv, iabs
    A = [[es[i * n + j] for j in range(n)] + [one if i == j else zero for j in range(n)] for i in range(n)]
    for c in range(n):
        best, bm = None, 0.0
        for r in range(c, n):
            m = mag(A[r][c])
            if m is not None and m[0] > bm:
                best, bm = r, m[0]
        if best is None:
            return None
        A[c], A[best] = A[best], A[c]
        p = A[c][c]
        for j in range(2 * n):
            if A[c][j] == zero:
                continue
            A[c][j] = one if j == c else div(A[c][j], p)
            if A[c][j] is None or A[c][j] == NAN:
                return None
        for r in range(n):
            if r == c or A[r][c] == zero:
                continue
            f = A[r][c]
            for j in range(2 * n):
                if A[c][j] == zero:
                    continue
                if j == c:
                    A[r][j] = zero
                    continue
                t = mul(f, A[c][j])
                if t is None or t == NAN:
                    return None
                A[r][j] = sub(A[r][j], t)
                if A[r][j] is None or A[r][j] == NAN:
                    return None
    return [A[i][n + j] for i in range(n) for j in range(n)]


# ------------------------------------------------------------- evaluation
def tribool(v):
    return v if v is T or v is F else None


def evaluate(roots, box, memo=None):
    """evaluate nodes over a box {symbol: (lo, hi)}; returns memo {id: value}"""
    if memo is None:
        memo = {}
    for n in ir.topo([r for r in roots if r.id not in memo]):
        if n.id in memo:
            continue
        try:
            memo[n.id] = step(n, memo, box)
        except (TypeError, OverflowError, ZeroDivisionError):
            memo[n.id] = None   # an intermediate enclosure without bounds
    return memo


def get1(n, box):
    return evaluate([n], box)[n.id]


def step(n, memo, box):
    op = n.op
    if op == "const":
        return fromfrac(n.data[0])
    if op == "sym":
        return box.get(n.data[0])
    if op == "pi":
        return PI
    if op == "I":
        return ("c", ZERO, ONE)
    if op == "true":
        return T
    if op == "false":
        return F
    if op == "nan":
        return NAN
    if op == "inf":
        return (INF, INF)
    if op == "raise":
        return RAISE
    if op in ("top", "topb"):
        return None
    a = [memo[x.id] for x in n.args]
    if op == "sel":
        c = a[0]
        if c == RAISE and c is not True and c is not False:
            return RAISE
        if c is T:
            return a[1]
        if c is F:
            return a[2]
        x, y = a[1], a[2]
        if isreal(x) and isreal(y):
            return (min(x[0], y[0]), max(x[1], y[1]))
        if x is not None and x == y:
            return x
        if (iscplx(x) or isreal(x)) and (iscplx(y) or isreal(y)):
            x, y = C(x), C(y)
            return ("c", (min(x[1][0], y[1][0]), max(x[1][1], y[1][1])), (min(x[2][0], y[2][0]), max(x[2][1], y[2][1])))
        return None
    if op == "and":
        if a[0] is F or a[1] is F:
            return F
        if a[0] is T and a[1] is T:
            return T
        return None
    if op == "or":
        if a[0] is T or a[1] is T:
            return T
        if a[0] is F and a[1] is F:
            return F
        return None
    if op == "not":
        return None if a[0] is None else (F if a[0] is T else T if a[0] is F else a[0])
    for v in a:
        if v == RAISE:
            return RAISE
    if op == "isnan":
        if a[0] == NAN:
            return T
        return None if a[0] is None else F
    if op == "isfin":
        v = a[0]
        if v == NAN:
            return F
        if isreal(v):
            if abs(v[0]) == INF and v[0] == v[1]:
                return F
            if abs(v[0]) != INF and abs(v[1]) != INF:
                return T
        return None
    if op == "ne0":
        return None
    if op == "solve":
        return solve_enclosure(n, memo, box)
    if op == "ode":
        return None
    for v in a:
        if v is None:
            # products with an exact zero stay unknown (could be inf)
            return None
    if op in ("lt", "le", "eq"):
        if NAN in a:
            return F
        x, y = a
        if x is T or x is F:
            x = ONE if x else ZERO
        if y is T or y is F:
            y = ONE if y else ZERO
        if iscplx(x) or iscplx(y):
            if op == "eq":
                x, y = C(x), C(y)
                for p, q in ((x[1], y[1]), (x[2], y[2])):
                    if p[1] < q[0] or q[1] < p[0]:
                        return F
            elif C(x)[1][1] < C(y)[1][0]:
                return T     # numpy orders complex numbers by their real parts first
            elif C(y)[1][1] < C(x)[1][0]:
                return F
            return None
        if op == "lt":
            return T if x[1] < y[0] else F if x[0] >= y[1] else None
        if op == "le":
            return T if x[1] <= y[0] else F if x[0] > y[1] else None
        if x[1] < y[0] or y[1] < x[0]:
            return F
        if x[0] == x[1] == y[0] == y[1]:
            return T
        return None
    if op == "matinv":
        m, p, q = n.data
        key = ("mi", tuple(x.id for x in n.args), m)
        r = memo.get(key)
        if r is None:
            r = matinv(a, m) or "fail"
            memo[key] = r
        return None if r == "fail" else r[p * m + q]
    if op == "atom":
        if n.data[0] == "jv" and n.args[0].op == "const":
            r = bessel_j(int(n.args[0].data[0]), C(a[1])) if a[1] != NAN else NAN
            if iscplx(r) and n.args[1].kind != "c":
                return r[1]
            return r
        if n.data[0] == "polyroot":
            return polyroot(n, a, memo)
        if n.data[0] == "realroot":
            return realroot(a)
        return None
    if NAN in a:
        if op in ("min2", "max2", "trunc"):
            return None
        return NAN
    a = [ONE if v is T else ZERO if v is F else v for v in a]
    if any(iscplx(v) for v in a):
        return cstep(op, n, a)
    x = a[0]
    if op == "add":
        return iadd(x, a[1])
    if op == "sub":
        return isub(x, a[1])
    if op == "mul":
        return imul(x, a[1]) if n.args[0] is not n.args[1] else ipow_int(x, 2)
    if op == "div":
        if n.args[0] is n.args[1] and (x[0] > 0.0 or x[1] < 0.0) and abs(x[0]) < INF and abs(x[1]) < INF:
            return ONE
        return idiv(x, a[1])
    if op == "flt":
        return x
    if op == "neg":
        return (-x[1], -x[0])
    if op == "pow":
        e = ir.cval(n.args[1])
        if e is not None:
            return ipow(x, e)
        return ipow_gen(x, a[1])
    if op == "exp":
        return iexp(x)
    if op == "log":
        return ilog(x)
    if op == "sin":
        return isin(x)
    if op == "cos":
        return icos(x)
    if op == "tan":
        return itan(x)
    if op == "arcsin":
        return iarcsin(x)
    if op == "arccos":
        return iarccos(x)
    if op == "arctan":
        return iarctan(x)
    if op == "arctan2":
        return iarctan2(x, a[1])
    if op == "abs":
        return iabs(x)
    if op == "min2":
        return (min(x[0], a[1][0]), min(x[1], a[1][1]))
    if op == "max2":
        return (max(x[0], a[1][0]), max(x[1], a[1][1]))
    if op == "sign":
        if x[0] > 0:
            return ONE
        if x[1] < 0:
            return (-1.0, -1.0)
        return ZERO if x == ZERO else (-1.0, 1.0)
    if op in ("floor", "ceil", "rint", "trunc"):
        if abs(x[0]) == INF or abs(x[1]) == INF:
            return None
        if abs(x[0]) > 1e15 or abs(x[1]) > 1e15:
            return x
        f = {"floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": math.trunc}[op]
        return (float(f(x[0])), float(f(x[1])))
    if op in ("r32", "r16"):
        return tuple(ir.roundto(op, v) for v in x)
    if op in ("real", "conj"):
        return x
    if op == "imag":
        return ZERO
    if op == "arg":
        return ZERO if x[0] > 0 else PI if x[1] < 0 else None
    return None


def cstep(op, n, a):
    x = C(a[0])
    if op == "add":
        return cadd(x, C(a[1]))
    if op == "sub":
        return csub(x, C(a[1]))
    if op == "mul":
        return cmul(x, C(a[1]))
    if op == "div":
        return cdiv(x, C(a[1]))
    if op == "flt":
        return x
    if op == "neg":
        return ("c", (-x[1][1], -x[1][0]), (-x[2][1], -x[2][0]))
    if op == "pow":
        e = ir.cval(n.args[1])
        return cpow(x, e) if e is not None else None
    if op in ("min2", "max2"):
        y = C(a[1])
        if x[1][1] < y[1][0] or y[1][1] < x[1][0]:
            return x if (x[1][1] < y[1][0]) == (op == "min2") else y
        return None
    if op == "exp":
        return cexp(x)
    if op == "log":
        return clog(x)
    if op == "abs":
        return cabs(x)
    if op == "arg":
        return carg(x)
    if op == "real":
        return x[1]
    if op == "imag":
        return x[2]
    if op == "conj":
        return ("c", x[1], (-x[2][1], -x[2][0]))
    if op in ("sin", "cos"):
        iz = cmul(x, ("c", ZERO, ONE))
        if iz is None:
            return None
        e1 = cexp(iz)
        e2 = cexp(("c", (-iz[1][1], -iz[1][0]), (-iz[2][1], -iz[2][0])))
        if e1 is None or e2 is None:
            return None
        if op == "cos":
            s = cadd(e1, e2)
            return cdiv(s, C((2.0, 2.0))) if s else None
        s = csub(e1, e2)
        return cdiv(s, ("c", ZERO, (2.0, 2.0))) if s else None
    return None


def realroot(coefs):
    """the unique positive root of x^3 + p x + q with p>0, q<0 (monotone)"""
    if len(coefs) != 4 or any(not isreal(c) for c in coefs):
        return None
    a3, a2, a1, a0 = coefs
    if a3[0] <= 0 or a2[0] < 0 or a1[0] < 0 or a0[1] >= 0:
        return None

    def solve(c3, c2, c1, c0, sgn):
        f = lambda x: ((c3 * x + c2) * x + c1) * x + c0
        lo, hi = 0.0, 1.0
        while f(hi) < 0:
            hi *= 2
            if hi > 1e300:
                return None
        for _ in range(2000):
            m = (lo + hi) / 2
            if m == lo or m == hi:
                break
            if f(m) < 0:
                lo = m
            else:
                hi = m
        return lo if sgn < 0 else hi
    l = solve(a3[1], a2[1], a1[1], a0[1], -1)
    h = solve(a3[0], a2[0], a1[0], a0[0], 1)
    if l is None or h is None:
        return None
    return (l * (1 - 1e-12), h * (1 + 1e-12))


def polyroot(n, a, memo):
    """the n.data[1]-th root of a real polynomial, highest coefficient first;
    the roots are numbered by real part, of a conjugate pair the upper one first"""
    key = ("pr", tuple(x.id for x in n.args))
    r = memo.get(key)
    if r is None:
        r = cubicroots(a) or allroots(a) or "fail"
        memo[key] = r
    return None if r == "fail" else r[n.data[1]]


def cubicroots(a):
    """roots of x^3+p x+q (p>0,q<0): one positive real, two complex with negative real part"""
    r = realroot(a)
    if r is None or a[1] != ZERO or not (isreal(a[2]) and a[2][0] > 0 and a[0] == ONE):
        return None
    # remaining quadratic x^2 + r x + (p + r^2)
    re = imul(r, (-0.5, -0.5))
    d = isub(imul((4.0, 4.0), iadd(a[2], ipow_int(r, 2))), ipow_int(r, 2))
    if not isreal(d) or d[0] <= 0:
        return None
    im = imul(ipow(d, ir.HALF.data[0]), (0.5, 0.5))
    return [("c", re, im), ("c", re, (-im[1], -im[0])), ("c", r, ZERO)]


def allroots(a):
    """Roots of any real polynomial with simple roots: approximations z_i, then
    the discs of radius n|p(z_i) / (a_n prod(z_i - z_j))| around them hold all
    roots, and one root each when they are disjoint (Smith 1970)."""
    n = len(a) - 1
    if n < 1 or any(not isreal(c) or abs(c[0]) == INF or abs(c[1]) == INF for c in a) or a[0][0] <= 0 <= a[0][1]:
        return None
    c = [(l + h) / 2 for l, h in a]
    try:
        c = [x / c[0] for x in c]
        R = 1 + max(abs(x) for x in c[1:])
        R = min(R, 2 * max(abs(x) ** (1.0 / k) for k, x in enumerate(c[1:], 1)) or 1.0)
        z = [R * complex(math.cos(0.4 + 2 * math.pi * k / n), math.sin(0.4 + 2 * math.pi * k / n)) for k in range(n)]
        for _ in range(400):
            m = 0.0
            for i in range(n):
                p = 0j
                for x in c:
                    p = p * z[i] + x
                for j in range(n):
                    if j != i:
                        p /= z[i] - z[j]
                z[i] -= p
                m = max(m, abs(p) / (abs(z[i]) or 1.0))
            if m < 1e-15:
                break
        out = []
        lead = min(abs(a[0][0]), abs(a[0][1]))
        for i in range(n):
            w = ("c", (z[i].real, z[i].real), (z[i].imag, z[i].imag))
            p = C(a[0])
            for x in a[1:]:
                p = cadd(cmul(p, w), C(x))
            num = n * math.hypot(max(map(abs, p[1])), max(map(abs, p[2])))
            den = lead
            for j in range(n):
                if j != i:
                    den *= abs(z[i] - z[j]) * (1 - 1e-15)
            out.append((z[i], num / den * (1 + 1e-13) + 1e-300))
    except (ZeroDivisionError, OverflowError, TypeError):
        return None
    if any(not (r < INF) or x != x for x, r in out):
        return None
    for i in range(n):
        for j in range(i):
            if abs(out[i][0] - out[j][0]) * (1 - 1e-15) <= out[i][1] + out[j][1]:
                return None
    real = [abs(x.imag) <= r for x, r in out]      # such a disc and its mirror image overlap, so its one root is real
    order = sorted(range(n), key=lambda i: (out[i][0].real, -out[i][0].imag))
    # a conjugate pair must not be torn apart by rounding of its real parts
    res = []
    for i in order:
        x, r = out[i]
        res.append(("c", (dn(x.real - r), up(x.real + r)), ZERO if real[i] else (dn(x.imag - r), up(x.imag + r))))
    for k in range(n - 1):
        u, v = res[k], res[k + 1]
        if u[1][1] >= v[1][0]:
            pair = not real[order[k]] and not real[order[k + 1]] and u[2][0] <= -v[2][0] and -v[2][1] <= u[2][1]
            if not pair:
                return None
            if u[2][1] < 0:
                res[k], res[k + 1] = v, u
    for k in range(n - 2):
        if res[k][1][1] >= res[k + 2][1][0]:
            return None
    return res


# ------------------------------------------------------------- nonlinear systems
def solve_enclosure(n, memo, box):
    """Enclose the solution of a square system near its initial guess: float
    Newton on the value graph for a candidate, Krawczyk test for the proof."""
    k, comp, names = n.data
    key = ("sv", tuple(x.id for x in n.args))
    r = memo.get(key)
    if r is None:
        r = _solve(n.args[:k], n.args[k:], names, memo, box) or "fail"
        memo[key] = r
    return None if r == "fail" else r[comp]


def _solve(res, x0, names, memo, box):
    k = len(names)
    start = []
    for x in x0:
        v = memo.get(x.id)
        if not isreal(v):
            return None
        start.append((v[0] + v[1]) / 2)
    mid = {s: (v if not isreal(v) else ((v[0] + v[1]) / 2,) * 2) for s, v in box.items()}

    def fval(x, bx, width=0.0):
        b = dict(bx)
        for nm, xi in zip(names, x):
            b[nm] = xi if isreal(xi) else (xi - width, xi + width)
        m = evaluate(res, b)
        return [m[r.id] for r in res]

    def fmid(x):
        v = fval(x, mid)
        if any(not isreal(q) for q in v):
            return None
        return [(q[0] + q[1]) / 2 for q in v]
    x = start
    fx = fmid(x)
    if fx is None:
        return None
    for it in range(60):
        J = []
        for j in range(k):
            h = 1e-6 * (abs(x[j]) or 1.0)
            xp = list(x)
            xp[j] += h
            fp = fmid(xp)
            if fp is None:
                return None
            J.append([(p - q) / h for p, q in zip(fp, fx)])
        A = [[J[j][i] for j in range(k)] for i in range(k)]
        try:
            d = _lin(A, fx)
        except ZeroDivisionError:
            return None
        lam = 1.0
        while lam > 1e-4:
            xn = [p - lam * q for p, q in zip(x, d)]
            fn = fmid(xn)
            if fn is not None and sum(t * t for t in fn) < sum(t * t for t in fx):
                break
            lam /= 2
        else:
            break
        done = all(abs(lam * q) < 1e-14 * (abs(p) + 1e-300) for p, q in zip(x, d))
        x, fx = xn, fn
        if done:
            break
    Y = _inv([[A[i][j] for j in range(k)] for i in range(k)])
    if Y is None:
        return None
    # existence/uniqueness: K = x - Y f(x) + (I - Y J(X)) (X - x) inside X
    for rad in (1e-9, 1e-7, 1e-5, 1e-11):
        X = [(xi - rad * abs(xi), xi + rad * abs(xi)) for xi in x]
        f0 = fval(x, box)
        if any(not isreal(q) for q in f0):
            return None
        # slopes via directional interval differences are not rigorous; use
        # symbolic derivatives of the value graph
        Jx = _jac(res, names, X, box)
        if Jx is None:
            continue
        K = []
        ok = True
        for i in range(k):
            s = (x[i], x[i])
            for j in range(k):
                t = imul((Y[i][j], Y[i][j]), f0[j])
                s = isub(s, t)
            for j in range(k):
                e = ONE if i == j else ZERO
                for l in range(k):
                    e = isub(e, imul((Y[i][l], Y[i][l]), Jx[l][j]))
                s = iadd(s, imul(e, (X[j][0] - x[j], X[j][1] - x[j])))
            if not isreal(s) or s[0] < X[i][0] or s[1] > X[i][1]:
                ok = False
            K.append(s)
        if ok:
            return K
    return None


def _jac(res, names, X, box):
    b = dict(box)
    for nm, xi in zip(names, X):
        b[nm] = xi
    J = []
    for r in res:
        row = []
        for nm in names:
            d = deriv(r, nm)
            if d is None:
                return None
            v = get1(d, b)
            if not isreal(v):
                return None
            row.append(v)
        J.append(row)
    return J


_dc = {}


def deriv(n, name):
    """symbolic partial derivative over the value graph (None if unsupported)"""
    memo = _dc.setdefault(name, {})
    for x in ir.topo([n]):
        if x.id not in memo:
            memo[x.id] = _d(x, name, memo)
    return memo[n.id]


def _d(n, name, memo):
    z = ir.const(0, "f")
    if name not in ir.deps(n):
        return z
    if n.op == "sym":
        return ir.const(1, "f")
    ds = [memo[a.id] for a in n.args]
    if n.op == "sel":
        if ds[1] is None or ds[2] is None:
            return None
        return ir.sel(n.args[0], ds[1], ds[2])
    if n.op in ir.BOOL:
        return z
    if any(d is None for d in ds):
        return None
    a = n.args
    if n.op == "add":
        return ir.add(ds[0], ds[1])
    if n.op == "sub":
        return ir.sub(ds[0], ds[1])
    if n.op == "flt":
        return ds[0]
    if n.op == "neg":
        return ir.neg(ds[0])
    if n.op == "mul":
        return ir.add(ir.mul(ds[0], a[1]), ir.mul(a[0], ds[1]))
    if n.op == "div":
        return ir.sub(ir.div(ds[0], a[1]), ir.div(ir.mul(a[0], ds[1]), ir.mul(a[1], a[1])))
    if n.op == "pow":
        e = ir.cval(a[1])
        if e is None:
            return None
        return ir.mul(ir.mul(a[1], ir.pow_(a[0], ir.const(e - 1))), ds[0])
    if n.op == "exp":
        return ir.mul(n, ds[0])
    if n.op == "log":
        return ir.div(ds[0], a[0])
    if n.op == "sin":
        return ir.mul(ir.fn("cos", a[0]), ds[0])
    if n.op == "cos":
        return ir.neg(ir.mul(ir.fn("sin", a[0]), ds[0]))
    if n.op == "arccos":
        return ir.neg(ir.div(ds[0], ir.sqrt(ir.sub(ir.const(1), ir.mul(a[0], a[0])))))
    return None


def _lin(A, b):
    n = len(b)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        M[c], M[p] = M[p], M[c]
        if M[c][c] == 0:
            raise ZeroDivisionError
        for r in range(n):
            if r != c:
                f = M[r][c] / M[c][c]
                for j in range(c, n + 1):
                    M[r][j] -= f * M[c][j]
    return [M[i][n] / M[i][i] for i in range(n)]


def _inv(A):
    n = len(A)
    try:
        cols = [_lin(A, [1.0 if i == j else 0.0 for i in range(n)]) for j in range(n)]
    except ZeroDivisionError:
        return None
    return [[cols[j][i] for j in range(n)] for i in range(n)]


_decmemo = [None, None]


def decide(n, ranges):
    if _decmemo[0] is not ranges:
        _decmemo[0] = ranges
        _decmemo[1] = {}
    v = evaluate([n], ranges, _decmemo[1])[n.id]
    return v if v is T or v is F else None


def mid(v):
    return (v[0] + v[1]) / 2


def disjoint(a, b, rel=1e-9):
    """True when the enclosures a, b are provably apart (beyond rounding)"""
    if a is None or b is None:
        return False
    if a == RAISE or b == RAISE or a == NAN or b == NAN:
        return a != b
    if a is T or a is F or b is T or b is F:
        if (a is T or a is F) and (b is T or b is F):
            return a is not b
        a = ONE if a is T else ZERO if a is F else a
        b = ONE if b is T else ZERO if b is F else b
    if iscplx(a) or iscplx(b):
        a, b = C(a), C(b)
        s = max(abs(t) for v in (a, b) for p in v[1:] for t in p)
        return _apart(a[1], b[1], rel, s) or _apart(a[2], b[2], rel, s)
    return _apart(a, b, rel)


def _apart(a, b, rel, scale=None):
    if a[0] > a[1] or b[0] > b[1]:
        return False
    m = max(abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1])) if scale is None else scale
    if m == INF:
        fa = abs(a[0]) == INF and a[0] == a[1]
        fb = abs(b[0]) == INF and b[0] == b[1]
        if fa and fb:
            return a[0] != b[0]
        if fa != fb:
            o = b if fa else a
            return abs(o[0]) != INF and abs(o[1]) != INF
        return False
    g = rel * m
    return a[1] + g < b[0] or b[1] + g < a[0]


def below(a, b, rel=1e-9):
    """True when provably a < b by a margin"""
    if not (isreal(a) and isreal(b)):
        return False
    m = max(abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]))
    if m == INF:
        return False
    return a[1] + rel * m < b[0]
