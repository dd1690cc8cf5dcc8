"""Hash-consed value graph (gated SSA values).

Every abstract scalar produced by the front end is a Node.  Nodes are interned,
so two program points that compute the same term share one Node.  Nothing here
executes repository code: the graph is built from the syntax tree only.
"""
import struct
from fractions import Fraction

_table = {}
_nodes = []


class Node:
    __slots__ = ("op", "args", "data", "id", "kind", "_deps")

    def __repr__(self):
        return show(self, 4)

    def __bool__(self):
        raise TypeError("Node used as a Python truth value")


REALFUN = {"real", "imag", "abs", "arg", "lt", "le", "eq", "ne", "and", "or",
           "not", "isnan", "floor", "trunc", "sign", "isfin"}
BOOL = {"lt", "le", "eq", "ne", "and", "or", "not", "isnan", "isfin"}


def _kind(op, args, data):
    if op in BOOL:
        return "b"
    if op == "const":
        return data[1]
    if op == "I":
        return "c"
    if op == "sym":
        return data[1]
    if op in ("real", "imag", "abs", "arg", "sign", "isnan"):
        return "f" if not (args and args[0].kind == "i") else "i"
    if op in ("floor", "ceil", "rint", "r32", "r16"):
        return "f"
    if op == "trunc":
        return "i"
    if op in ("add", "sub", "mul", "neg", "sel", "min2", "max2", "mod"):
        ks = {a.kind for a in (args[1:] if op == "sel" else args)}
        if "c" in ks:
            return "c"
        if ks <= {"i", "b"}:
            return "i" if ks != {"b"} or op != "sel" else "b"
        return "f"
    if op == "pow":
        ks = {a.kind for a in args}
        if "c" in ks:
            return "c"
        if ks <= {"i", "b"}:
            e = cval(args[1])
            if e is not None and e.denominator == 1 and e >= 0:
                return "i"
        return "f"
    if op == "atom":
        return data[2] if len(data) > 2 else ("c" if any(a.kind == "c" for a in args) else "f")
    if op == "matinv":
        return "c" if any(a.kind == "c" for a in args) else "f"
    for a in args:
        if a.kind == "c":
            return "c"
    return "f"


def mk(op, args=(), data=None):
    if op != "flt" and any(a.op == "flt" for a in args):
        # a conversion to float only matters where it decides the kind of the result
        st = tuple(a.args[0] if a.op == "flt" else a for a in args)
        if _kind(op, st, data) == _kind(op, tuple(args), data):
            args = tuple(sorted(st, key=lambda a: a.id)) if op in ("add", "mul") else st
    key = (op, tuple(a.id for a in args), data)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = tuple(args)
        n.data = data
        n.id = len(_nodes)
        n.kind = _kind(op, n.args, data)
        n._deps = None
        _table[key] = n
        _nodes.append(n)
    return n


def const(v, kind=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("const", (), (Fraction(v), kind or "i"))
    if isinstance(v, Fraction):
        return mk("const", (), (v, kind or "f"))
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        return mk("const", (), (Fraction(repr(v)), kind or "f"))
    if isinstance(v, complex):
        r = const(v.real)
        i = const(v.imag)
        return add(r, mul(i, I))
    raise TypeError(v)


def cval(n):
    return n.data[0] if n.op == "const" else None


def sym(name, kind="f"):
    return mk("sym", (), (name, kind))


PI = mk("pi")
I = mk("I")
NAN = mk("nan")
INF = mk("inf")
EULER = mk("exp", (mk("const", (), (Fraction(1), "f")),))
TRUE = mk("true")
FALSE = mk("false")
TRUE.kind = FALSE.kind = "b"

_topc = [0]
TOPREASON = {}


def top(reason="?"):
    _topc[0] += 1
    n = mk("top", (), ("t", _topc[0]))
    TOPREASON[n.id] = reason
    return n


def raisen(msg):
    return mk("raise", (), msg)


def _k2(a, b):
    ks = {a.kind, b.kind}
    return "i" if ks <= {"i", "b"} else "f"


def asnum(a):
    """boolean node used as a number"""
    if a.op == "true":
        return const(1)
    if a.op == "false":
        return const(0)
    if a.op in BOOL:
        return sel(a, const(1), const(0))
    return a


def add(a, b):
    a = asnum(a)
    b = asnum(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca + cb, _k2(a, b))
    if ca == 0 and ca is not None and a.op == "const":
        return tofloat(b) if a.kind == "f" else b
    if cb is not None and cb == 0:
        return tofloat(a) if b.kind == "f" else a
    if b.id < a.id:
        a, b = b, a
    return mk("add", (a, b))


def sub(a, b):
    a = asnum(a)
    b = asnum(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca - cb, _k2(a, b))
    if cb is not None and cb == 0:
        return tofloat(a) if b.kind == "f" else a
    if ca is not None and ca == 0:
        return neg(tofloat(b) if a.kind == "f" else b)
    if a is b and not _weird(a):
        return const(0, a.kind if a.kind == "i" else "f")
    return mk("sub", (a, b))


def _weird(a):
    return a.op in ("top", "raise", "nan", "inf", "undef")


def neg(a):
    a = asnum(a)
    c = cval(a)
    if c is not None:
        return const(-c, a.kind)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def mul(a, b):
    a = asnum(a)
    b = asnum(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca * cb, _k2(a, b))
    for c, n, o in ((ca, b, a), (cb, a, b)):
        if c is not None:
            if c == 1:
                return tofloat(n) if o.kind == "f" else n
            if c == -1:
                return neg(tofloat(n) if o.kind == "f" else n)
            if c == 0 and not _weird(n):
                return const(0, "i" if _k2(a, b) == "i" else "f")
    if b.id < a.id:
        a, b = b, a
    return mk("mul", (a, b))


def div(a, b):
    a = asnum(a)
    b = asnum(b)
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return const(ca / cb, "f")
        if cb == 1:
            return tofloat(a)
    if ca is not None and ca == 0 and cb is None and not _weird(b):
        return mk("div", (a, b))
    return mk("div", (a, b))


def tofloat(a):
    if a.kind == "i":
        return const(a.data[0], "f") if a.op == "const" else mk("flt", (a,))
    return a


def pow_(a, b):
    a = asnum(a)
    b = asnum(b)
    ca, cb = cval(a), cval(b)
    if cb is not None:
        if b.kind == "f" and a.kind == "i":
            a = tofloat(a)
        if cb == 1:
            return a
        if cb == 0:
            return const(1, "f")
        if ca is not None and cb.denominator == 1 and abs(cb) <= 64 and (ca != 0 or cb > 0):
            return const(ca ** int(cb), "i" if _k2(a, b) == "i" and cb > 0 else "f")
        if cb == Fraction(1, 2) and ca is not None and ca >= 0:
            import math
            n, d = math.isqrt(ca.numerator), math.isqrt(ca.denominator)
            if n * n == ca.numerator and d * d == ca.denominator:
                return const(Fraction(n, d), "f")
        b = const(cb, "i" if a.kind == "i" and cb.denominator == 1 and cb > 0 else "f")
    if ca is not None and ca == 1:
        return const(1, "f")
    return mk("pow", (tofloat(a) if cb is not None and (cb < 0 or cb.denominator != 1) else a, b))


HALF = const(Fraction(1, 2))


def sqrt(a):
    return pow_(tofloat(asnum(a)), HALF)


FMT = {"r32": "<f", "r16": "<e"}


def roundto(name, x):
    """nearest single or half precision number"""
    try:
        x = float(x)
        return struct.unpack(FMT[name], struct.pack(FMT[name], x))[0]
    except OverflowError:
        return float("inf") if x > 0 else -float("inf")


def fn(name, *args):
    args = tuple(tofloat(asnum(a)) for a in args)
    a = args[0] if args else None
    if name == "exp":
        if a.op == "const" and a.data[0] == 0:
            return const(Fraction(1))
        if a.op == "log":
            return a.args[0]
    elif name == "log":
        if a.op == "const" and a.data[0] == 1:
            return const(Fraction(0))
        if a.op == "exp" and a.kind != "c":
            return a.args[0]
    elif name in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh"):
        if a.op == "const" and a.data[0] == 0:
            return const(Fraction(0))
        if name == "sin" and a.op == "arcsin":
            return a.args[0]
        if name == "sin" and a.op == "arccos":
            return sqrt(sub(const(1), pow_(a.args[0], const(2))))
        if name == "tan" and a.op == "arctan":
            return a.args[0]
        if name == "tan" and a.op == "arcsin":
            x = a.args[0]
            return div(x, sqrt(sub(const(1), pow_(x, const(2)))))
    elif name == "cos":
        if a.op == "const" and a.data[0] == 0:
            return const(Fraction(1))
        if a.op == "arccos":
            return a.args[0]
        if a.op == "arcsin":
            return sqrt(sub(const(1), pow_(a.args[0], const(2))))
    elif name == "abs":
        if a.op == "const":
            return const(abs(a.data[0]), a.kind)
        if a.op == "abs":
            return a
    elif name == "real":
        if a.kind != "c":
            return a
    elif name == "imag":
        if a.kind != "c":
            return const(Fraction(0))
    elif name == "conj":
        if a.kind != "c":
            return a
    elif name in ("floor", "ceil", "rint", "trunc"):
        if a.op == "const":
            import math
            f = {"floor": math.floor, "ceil": math.ceil, "rint": round, "trunc": math.trunc}[name]
            return const(Fraction(f(a.data[0])), "i" if name == "trunc" else "f")
        if name == "trunc" and args[0].kind == "i":
            return args[0]
    elif name in ("r32", "r16"):
        if a.op == "const":
            q = roundto(name, a.data[0])
            if abs(q) == float("inf"):
                return INF if q > 0 else neg(INF)
            return const(Fraction(q), "f")
        if a.op in (name, "nan", "inf") or (name == "r32" and a.op == "r16"):
            return a
        if a.op in ("top", "topb"):
            return a
    elif name in ("min2", "max2"):
        x, y = args
        if x is y:
            return x
        if x.op == "const" and y.op == "const":
            return x if (x.data[0] <= y.data[0]) == (name == "min2") else y
        if y.id < x.id:
            args = (y, x)
    return mk(name, args)


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def eq(a, b):
    return _cmp("eq", a, b)


def ne(a, b):
    return not_(_cmp("eq", a, b))


def _cmp(op, a, b):
    a, b = asnum(a), asnum(b)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        r = ca < cb if op == "lt" else ca <= cb if op == "le" else ca == cb
        return TRUE if r else FALSE
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a is b and not _weird(a):
        return FALSE if op == "lt" else TRUE
    a, b = tofloat(a), tofloat(b)
    if op == "eq" and b.id < a.id:
        a, b = b, a
    return mk(op, (a, b))


def isnan(a):
    if a.op == "nan":
        return TRUE
    if a.op in ("const", "sym", "pi"):
        return FALSE
    return mk("isnan", (a,))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,))


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return mk("and", (a, b))


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if (a.op == "not" and a.args[0] is b) or (b.op == "not" and b.args[0] is a):
        return TRUE
    if b.id < a.id:
        a, b = b, a
    return mk("or", (a, b))


def sel(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return sel(c.args[0], b, a)
    if a.op == "sel" and a.args[0] is c:
        a = a.args[1]
    if b.op == "sel" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.kind == "b" and b.kind == "b":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("sel", (c, a, b))


def deps(n):
    """frozenset of symbol names (and opaque markers) n depends on"""
    if n._deps is not None:
        return n._deps
    stack = [n]
    while stack:
        x = stack[-1]
        if x._deps is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if a._deps is None]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        if x.op == "sym":
            s = frozenset([x.data[0]])
        elif x.op == "top":
            s = frozenset(["<top>"])
        for a in x.args:
            s = s | a._deps
        x._deps = s
        stack.pop()
    return n._deps


def topo(roots):
    """all nodes reachable from roots, children first"""
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        stack = [(r, 0)]
        while stack:
            n, i = stack.pop()
            if n.id in seen:
                continue
            if i < len(n.args):
                stack.append((n, i + 1))
                if n.args[i].id not in seen:
                    stack.append((n.args[i], 0))
            else:
                seen.add(n.id)
                out.append(n)
    return out


def show(n, depth=6):
    if n.op == "const":
        v = n.data[0]
        return str(v) if v.denominator == 1 else "%g" % float(v)
    if n.op == "sym":
        return n.data[0]
    if n.op in ("pi", "I", "nan", "inf", "true", "false"):
        return n.op
    if n.op == "top":
        return "TOP(%s)" % TOPREASON.get(n.id, "?")
    if n.op == "raise":
        return "RAISE(%s)" % n.data
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) for a in n.args]
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "=="}
    if n.op in inf:
        return "(" + (" " + inf[n.op] + " ").join(s) + ")"
    d = "" if n.data is None else str(n.data) + ";"
    return n.op + "(" + d + ", ".join(s) + ")"
