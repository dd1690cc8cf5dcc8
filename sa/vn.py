"""Global value numbering of the value graph over a finite field.

A node is mapped to an element of F_{p^2} (i adjoined) by a random
interpretation of the free symbols; algebraically equal terms get equal
numbers, different terms get different numbers except with negligible
probability (Schwartz-Zippel; Gulwani & Necula, "random interpretation").
p is a safe prime with p = -1 (mod 8*3*5*...*59): every small rational is a
square, -1 is not, and the squares have unique rational roots, so sqrt/cbrt/
decimal powers are exact functions and "positive" is modelled by "is a square".
Transcendental functions are numbered by hashing their (decomposed) argument.
"""
import hashlib
from fractions import Fraction

from . import ir

P = 8867167023592731248856583952796297491159
M = (P - 1) // 2
NANV = "nan"


def leg(x):
    """+1 / -1 / 0 quadratic character"""
    x %= P
    if x == 0:
        return 0
    # Jacobi symbol
    n = P
    a = x
    r = 1
    while a:
        t = (a & -a).bit_length() - 1
        a >>= t
        if t & 1 and n & 7 in (3, 5):
            r = -r
        if a & 3 == 3 and n & 3 == 3:
            r = -r
        a, n = n % a, a
    return r


def inv(x):
    return pow(x, -1, P)


def h(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(d, "big") % P


def cmulp(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def cinv(a):
    d = (a[0] * a[0] + a[1] * a[1]) % P
    if d == 0:
        return None
    d = inv(d)
    return (a[0] * d % P, -a[1] * d % P)


def cpowi(a, n):
    if n < 0:
        a = cinv(a)
        if a is None:
            return None
        n = -n
    if a[1] == 0:
        return (pow(a[0], n, P), 0)
    r = (1, 0)
    while n:
        if n & 1:
            r = cmulp(r, a)
        a = cmulp(a, a)
        n >>= 1
    return r


def csqrtp(z):
    """square root with real part a square (principal-like)"""
    if z[1] == 0:
        s = leg(z[0])
        if s == 0:
            return (0, 0)
        if s > 0:
            return (rootqr(z[0], 2), 0)
        return (0, rootqr(-z[0] % P, 2))
    nn = (z[0] * z[0] + z[1] * z[1]) % P
    if leg(nn) < 0:
        return None
    m = rootqr(nn, 2) if nn else 0
    i2 = (P + 1) // 2
    for mm in (m, -m % P):
        a2 = (z[0] + mm) * i2 % P
        if leg(a2) > 0:
            a = rootqr(a2, 2)
            b = z[1] * inv(2 * a) % P
            return (a, b)
    return None


def rootqr(x, k):
    return pow(x, inv_m(k), P)


_im = {}


def inv_m(k):
    r = _im.get(k)
    if r is None:
        r = _im[k] = pow(k, -1, M)
    return r


D = 2880
_turn = []


def turn():
    """exp(i*pi/60): the 120th root of unity for which exp(i*pi/2) = i and the cosines of 30, 36 and 45 degrees are positive"""
    if not _turn:
        k = 0
        while not _turn:
            k += 1
            z = (h("turn", k), 1)
            w = cpowi(cmulp(z, cinv((z[0], P - 1))), (P + 1) // 120)
            if any(cpowi(w, 120 // q) == (1, 0) for q in (2, 3, 5)) or cpowi(w, 30) != (0, 1):
                continue
            if all(leg(cpowi(w, j)[0]) > 0 for j in (10, 12, 15)):
                _turn.append(w)
    return _turn[0]


class Sample:
    """one interpretation; conds is the branch signature taken"""

    def __init__(self, seed, positive, fixed=None):
        self.seed = seed
        self.positive = positive      # symbols known > 0
        self.fixed = fixed or {}
        self.memo = {}
        self.conds = {}
        self.impure = 0
        self.hasnan = False
        self.rough = False            # some complex root had no representative
        self.top = False
        self.w = turn()

    def unit(self, key):
        a, b = h("u", self.seed, key, 0), h("u", self.seed, key, 1)
        z = (a, b)
        zi = cinv((a, -b % P))
        return cmulp(z, zi)

    def qr(self, *key):
        x = h(self.seed, *key)
        return x * x % P

    def get(self, roots):
        for n in ir.topo([r for r in roots if r.id not in self.memo]):
            if n.id not in self.memo:
                v = self.step(n)
                if v is None:
                    v = NANV
                self.memo[n.id] = v
        return [self.memo[r.id] for r in roots]

    def val(self, n):
        r = self.memo.get(n.id)
        if r is None:
            return self.get([n])[0]
        return r

    def cst(self, q):
        return (q.numerator * inv(q.denominator) % P, 0)

    def step(self, n):
        op = n.op
        if op == "const":
            return self.cst(n.data[0])
        if op == "sym":
            nm = n.data[0]
            if nm[0] == "$":
                return (self.qr("ph", nm), 0)
            if nm in self.fixed:
                return self.cst(self.fixed[nm])
            if nm in self.positive:
                return (self.qr("s", nm), 0)
            return (h(self.seed, "s", nm), 0)
        if op == "pi":
            return (self.qr("pi"), 0)
        if op == "I":
            return (0, 1)
        if op == "inf":
            return (self.qr("inf"), 0)
        if op == "nan":
            return NANV
        if op == "raise":
            return ("raise",)
        if op == "true":
            return True
        if op == "false":
            return False
        if op in ("top", "topb"):
            self.top = True
            return ("top", n.id)
        m = self.memo
        a = [m[x.id] for x in n.args]
        if op == "sel":
            c = a[0]
            if c is True:
                return a[1]
            if c is False:
                return a[2]
            if isinstance(c, tuple) and len(c) == 2 and c[0] == "top":
                return ("top", "sel", c, a[1], a[2])
            return ("raise",) if c == ("raise",) else NANV
        if op in ("and", "or", "not"):
            if any(v not in (True, False) or isinstance(v, tuple) for v in a):
                return ("top", op) + tuple(a)
            return (a[0] and a[1]) if op == "and" else (a[0] or a[1]) if op == "or" else (not a[0])
        for v in a:
            if isinstance(v, tuple) and v and v[0] in ("raise",):
                return ("raise",)
        for v in a:
            if isinstance(v, tuple) and v and v[0] == "top":
                return ("top", op, n.data) + tuple(a)
        if op == "isnan":
            return a[0] == NANV
        if op == "isfin":
            return a[0] != NANV
        a = [((1, 0) if v is True else (0, 0) if v is False else v) for v in a]
        if op in ("lt", "le", "eq"):
            if NANV in a:
                return False
            x, y = a
            d = ((y[0] - x[0]) % P, (y[1] - x[1]) % P)
            if op == "eq":
                r = d == (0, 0)
            elif d[1]:
                self.impure += 1
                r = leg(d[1]) > 0
            else:
                s = leg(d[0])
                r = s > 0 or (op == "le" and s == 0)
            self.conds[n.id] = r
            return r
        if op in ("solve", "ode"):
            k, j, _ = n.data
            return (h(self.seed, op, k, j, tuple(a)), 0)
        if op == "matinv":
            return self.matinv(n, a)
        if op == "atom":
            x = h(self.seed, "atom", n.data[:2], tuple(a))
            if len(n.data) > 2 and n.data[2] == "c":
                return (x, h(x))
            return (x, 0)
        if NANV in a:
            self.hasnan = True
            return NANV
        x = a[0]
        if op == "flt":
            return x
        if op == "add":
            return ((x[0] + a[1][0]) % P, (x[1] + a[1][1]) % P)
        if op == "sub":
            return ((x[0] - a[1][0]) % P, (x[1] - a[1][1]) % P)
        if op == "neg":
            return (-x[0] % P, -x[1] % P)
        if op == "mul":
            return cmulp(x, a[1])
        if op == "div":
            y = cinv(a[1])
            return None if y is None else cmulp(x, y)
        if op == "pow":
            e = ir.cval(n.args[1])
            if e is None:
                if x == (0, 0) and n.args[1].op == "sym" and n.args[1].data[0] in self.positive:
                    return x
                # x**y = exp(y*log(x))
                terms = []
                for b, c in self.factors(n.args[0]):
                    if b.op == "const" and b.data[0] == 1:
                        continue
                    t, q = self.content(ir.mul(n.args[1], ir.fn("log", b)))
                    terms.append((c * q, t))
                return self.expdec(terms)
            return self.power(x, e)
        if op == "exp":
            return self.expdec(self.linear(n.args[0]))
        if op == "log":
            return self.logv(n.args[0])
        if op in ("sin", "cos", "tan"):
            z = self.unitdec(n.args[0])
            zi = cinv(z)
            i2 = (P + 1) // 2
            c = ((z[0] + zi[0]) * i2 % P, (z[1] + zi[1]) * i2 % P)
            d = ((z[0] - zi[0]) * i2 % P, (z[1] - zi[1]) * i2 % P)
            s = (d[1], -d[0] % P)        # /i
            if op == "cos":
                return c
            if op == "sin":
                return s
            ci = cinv(c)
            return None if ci is None else cmulp(s, ci)
        if op in ("arcsin", "arctan", "arcsinh", "arctanh", "erf", "cbrt", "r32", "r16"):
            return self.odd(op, x)
        if op == "arccos":
            # pi/2 - arcsin
            s = self.odd("arcsin", x)
            hp = (self.qr("pi") * ((P + 1) // 2) % P, 0)
            return ((hp[0] - s[0]) % P, (hp[1] - s[1]) % P)
        if op == "arctan2":
            if x[1] == 0 and a[1][1] == 0 and leg(a[1][0]) > 0:
                return self.odd("arctan", (x[0] * inv(a[1][0]) % P, 0))
            return (h(self.seed, op, tuple(a)), 0)
        if op == "abs":
            if n.args[0].kind != "c" and x[1] == 0:
                return (x[0] if leg(x[0]) >= 0 else -x[0] % P, 0)
            nn = (x[0] * x[0] + x[1] * x[1]) % P
            return self.power((nn, 0), Fraction(1, 2))
        if op == "real":
            return (x[0], 0)
        if op == "imag":
            return (x[1], 0)
        if op == "conj":
            return (x[0], -x[1] % P)
        if op in ("min2", "max2"):
            y = a[1]
            d = (y[0] - x[0]) % P
            lt = leg(d) > 0
            self.conds[n.id] = lt
            return x if lt == (op == "min2") else y
        if op == "sign":
            s = leg(x[0])
            return (s % P, 0)
        return (h(self.seed, op, n.data, tuple(a)), 0)

    def odd(self, op, x):
        if x == (0, 0):
            return x
        s = leg(x[0]) if x[0] else leg(x[1])
        y = x if s > 0 else (-x[0] % P, -x[1] % P)
        v = h(self.seed, op, y)
        return (v if s > 0 else -v % P, 0)

    def power(self, x, e):
        if e.denominator == 1:
            return cpowi(x, int(e)) if not (x == (0, 0) and e < 0) else None
        if x == (0, 0):
            return x if e > 0 else None
        if x[1] == 0 and leg(x[0]) > 0:
            return (pow(x[0], e.numerator * inv_m(e.denominator) % M, P), 0)
        if e.denominator == 2:
            r = csqrtp(x)
            self.impure += 1
            if r is None:
                self.rough = True
                return (h(self.seed, "csqrt", x), h(self.seed, "csqrt2", x, e))
            return cpowi(r, e.numerator)
        self.impure += 1
        f = int(e.numerator // e.denominator)
        g = e - f
        base = h(self.seed, "pw", x, g.denominator)
        return cmulp(cpowi(x, f), (pow(base * base % P, g.numerator, P), 0))

    def linear(self, n):
        """decompose into [(rational, term)]"""
        out = {}

        def go(n, c, dep):
            if dep > 60:
                put(n, c)
                return
            if n.op == "add":
                go(n.args[0], c, dep + 1)
                go(n.args[1], c, dep + 1)
            elif n.op == "sub":
                go(n.args[0], c, dep + 1)
                go(n.args[1], -c, dep + 1)
            elif n.op == "neg":
                go(n.args[0], -c, dep + 1)
            elif n.op == "mul" and n.args[0].op == "const":
                go(n.args[1], c * n.args[0].data[0], dep + 1)
            elif n.op == "mul" and n.args[1].op == "const":
                go(n.args[0], c * n.args[1].data[0], dep + 1)
            elif n.op == "div" and n.args[1].op == "const" and n.args[1].data[0] != 0:
                go(n.args[0], c / n.args[1].data[0], dep + 1)
            elif n.op == "mul" and n.args[0].op in ("add", "sub", "neg"):
                distribute(n.args[0], n.args[1], c, dep)
            elif n.op == "mul" and n.args[1].op in ("add", "sub", "neg"):
                distribute(n.args[1], n.args[0], c, dep)
            elif n.op == "div" and n.args[0].op in ("add", "sub", "neg"):
                s = n.args[0]
                d = n.args[1]
                go(ir.div(s.args[0], d), -c if s.op == "neg" else c, dep + 1)
                if s.op != "neg":
                    go(ir.div(s.args[1], d), -c if s.op == "sub" else c, dep + 1)
            else:
                put(n, c)

        def distribute(s, m, c, dep):
            go(ir.mul(s.args[0], m), -c if s.op == "neg" else c, dep + 1)
            if s.op != "neg":
                go(ir.mul(s.args[1], m), -c if s.op == "sub" else c, dep + 1)

        def put(n, c):
            if n.op == "const":
                out[None] = (out.get(None, (0, None))[0] + c * n.data[0], None)
            else:
                v = self.val(n)
                # pull the rational content of products such as 2*x*pi/180
                t, q = self.content(n)
                if t is not n:
                    v = self.val(t)
                c = c * q
                o = out.get(v)
                out[v] = ((o[0] if o else 0) + c, t)
        go(n, Fraction(1), 0)
        return [(c, t) for c, t in out.values() if c != 0]

    def content(self, n):
        q = Fraction(1)
        num, den = [], []
        st = [(n, 1)]
        cnt = 0
        changed = False
        while st:
            x, e = st.pop()
            cnt += 1
            if cnt > 200:
                return n, Fraction(1)
            if x.op == "mul":
                st += [(x.args[0], e), (x.args[1], e)]
            elif x.op == "div":
                st += [(x.args[0], e), (x.args[1], -e)]
            elif x.op == "neg":
                q = -q
                changed = True
                st.append((x.args[0], e))
            elif x.op == "const" and x.data[0] != 0:
                q = q * (x.data[0] if e > 0 else 1 / x.data[0])
                changed = True
            else:
                (num if e > 0 else den).append(x)
        if not changed:
            return n, Fraction(1)
        r = ir.const(1, "f")
        for x in sorted(num, key=lambda t: t.id):
            r = ir.mul(r, x)
        for x in sorted(den, key=lambda t: t.id):
            r = ir.div(r, x)
        return r, q

    def factors(self, n):
        """[(base, rational exponent)] of a product of positive factors"""
        out = []
        st = [(n, Fraction(1))]
        while st and len(out) < 40:
            x, c = st.pop()
            if x.op == "mul":
                st += [(x.args[0], c), (x.args[1], c)]
            elif x.op == "div":
                st += [(x.args[0], c), (x.args[1], -c)]
            elif x.op == "pow" and x.args[1].op == "const":
                st.append((x.args[0], c * x.args[1].data[0]))
            elif x.op == "const" and x.data[0] > 0:
                out += [(ir.const(q), c * e) for q, e in factor(x.data[0])]
            else:
                out.append((x, c))
        if st or any(self.val(b) == NANV or leg(self.val(b)[0]) < 0 or self.val(b)[1] for b, _ in out):
            return [(n, Fraction(1))]
        return out

    def expdec(self, terms):
        r = (1, 0)
        i = ir.I
        for c, t in terms:
            if t is not None and t.op == "log":
                b = self.val(t.args[0])
                if b == NANV or not isinstance(b[0], int):
                    return None
                r = cmulp(r, self.power(b, c) or (0, 0))
                continue
            if t is not None and t.op == "mul" and any(x.op == "log" for x in t.args):
                # y*log(x): numbered as a base/exponent pair
                pass
            if t is not None and t.op == "mul" and i in t.args:
                o = t.args[0] if t.args[1] is i else t.args[1]
                r = cmulp(r, self.unitdec(ir.mul(ir.const(c), o)))
                continue
            if t is i:
                r = cmulp(r, self.unitdec(ir.const(c)))
                continue
            v = (1, 0) if t is None else self.val(t)
            if v == NANV:
                return None
            b = self.qr("exp", v)
            r = cmulp(r, (pow(b, c.numerator * inv_m(c.denominator) % M, P), 0))
        return r

    def unitdec(self, n):
        r = (1, 0)
        for c, t in self.linear(n):
            if t is not None and t.op == "pi":
                k = c * 60
                if k.denominator == 1:
                    r = cmulp(r, cpowi(self.w, int(k) % 120))
                    continue
            v = (1, 0) if t is None else self.val(t)
            k = c * D
            if k.denominator != 1:
                v = ("scaled", v, c)
                k = 1
            r = cmulp(r, cpowi(self.unit(("trig", v)), int(k)))
        return r

    def logv(self, n):
        tot = 0
        st = [(n, Fraction(1))]
        cnt = 0
        while st:
            x, c = st.pop()
            cnt += 1
            if cnt < 100:
                if x.op == "mul":
                    st += [(x.args[0], c), (x.args[1], c)]
                    continue
                if x.op == "div":
                    st += [(x.args[0], c), (x.args[1], -c)]
                    continue
                if x.op == "pow" and x.args[1].op == "const":
                    st.append((x.args[0], c * x.args[1].data[0]))
                    continue
                if x.op == "exp":
                    v = self.val(x.args[0])
                    if v != NANV and v[1] == 0:
                        tot += c.numerator * inv(c.denominator) * v[0]
                        continue
            cc = c.numerator * inv(c.denominator)
            if x.op == "const" and x.data[0] > 0:
                for q, e in factor(x.data[0]):
                    tot += cc * e * h(self.seed, "log", (q, 0))
                continue
            v = self.val(x)
            if v == NANV:
                return None
            tot += cc * h(self.seed, "log", v)
        return (tot % P, 0)

    def matinv(self, n, a):
        m, p, q = n.data
        key = ("mi", tuple(x.id for x in n.args), m)
        r = self.memo.get(key)
        if r is None:
            r = gauss(a, m)
            self.memo[key] = r
        return NANV if r is False else r[p * m + q]


def gauss(a, m):
    for v in a:
        if v == NANV or not isinstance(v[0], int):
            return False
    A = [list(a[i * m:(i + 1) * m]) + [(1, 0) if j == i else (0, 0) for j in range(m)] for i in range(m)]
    for c in range(m):
        pr = next((r for r in range(c, m) if A[r][c] != (0, 0)), None)
        if pr is None:
            return False
        A[c], A[pr] = A[pr], A[c]
        iv = cinv(A[c][c])
        if iv is None:
            return False
        A[c] = [cmulp(x, iv) for x in A[c]]
        for r in range(m):
            if r != c and A[r][c] != (0, 0):
                f = A[r][c]
                A[r] = [((x[0] - t[0]) % P, (x[1] - t[1]) % P)
                        for x, t in ((x, cmulp(f, y)) for x, y in zip(A[r], A[c]))]
    return [A[i][m + j] for i in range(m) for j in range(m)]


_fact = {}


def factor(q):
    if q in _fact:
        return _fact[q]
    out = []
    for v, s in ((q.numerator, 1), (q.denominator, -1)):
        d = 2
        while v > 1 and d < 2000:
            e = 0
            while v % d == 0:
                v //= d
                e += 1
            if e:
                out.append((d, s * e))
            d += 1
        if v > 1:
            out.append((v, s))
    _fact[q] = out
    return out


def equal(pairs, positive, tries=24, fixed=None, seed=0):
    """pairs: [(a, b)] nodes.  Returns list of 'eq' / 'ne' / 'cond' per pair.

    'eq'   : equal under every branch signature that was met
    'ne'   : never equal on some branch signature
    """
    res = [None] * len(pairs)
    live = [k for k, (a, b) in enumerate(pairs)]
    for k in list(live):
        if pairs[k][0] is pairs[k][1]:
            res[k] = "eq"
            live.remove(k)
    if not live:
        return res
    # conditions relevant per pair
    rel = {}
    for k in live:
        rel[k] = [n.id for n in ir.topo(pairs[k]) if n.op in ("lt", "le", "eq", "min2", "max2")]
    sigs = {k: {} for k in live}
    t = 0
    while t < tries and live:
        s = Sample((seed, t), positive, fixed)
        for k in live:
            a, b = s.get(pairs[k])
            sg = tuple(s.conds.get(i) for i in rel[k])
            d = sigs[k].setdefault(sg, [0, 0])
            if isinstance(a, tuple) and a[:1] == ("top",) or isinstance(b, tuple) and b[:1] == ("top",):
                d[1] += 0 if a == b else 1
                d[0] += 1 if a == b else 0
            elif a == b:
                d[0] += 1
            elif not s.rough:
                d[1] += 1
        t += 1
        # early exit: condition-free pairs that matched in every sample so far
        for k in list(live):
            if not rel[k] and t >= 4 and sigs[k].get((), [0, 0])[0] >= 2 and sigs[k][()][1] == 0:
                res[k] = "eq"
                live.remove(k)
    for k in live:
        bad = [sg for sg, (g, _) in sigs[k].items() if g == 0]
        if not rel[k] and not bad and sigs[k][()][1]:
            res[k] = "cond"           # equal under some choices of sign only
        elif not bad:
            res[k] = "eq"
        elif rel[k] and len(bad) < len(sigs[k]):
            res[k] = "cond"
        else:
            res[k] = "ne"
    return res
