"""Abstract models of numpy / scipy / math / pandas / builtins operations.

Each model maps abstract values (values.py) to abstract values; unknown
operations become Top and are counted.
"""
import ast
import math
from fractions import Fraction
from . import ir
from .ir import Node
from .values import *

C = ir.const


# ------------------------------------------------------------------ arrays
def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def bshape(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            k = i - (n - len(s))
            if k >= 0 and s[k] != 1:
                if d != 1 and d != s[k]:
                    raise PyRaise("ValueError", "operands could not be broadcast together %s" % (shapes,))
                d = s[k]
        out.append(d)
    return tuple(out)


def bindex(shape, target):
    """row-major positions into an array of `shape` for every position of `target`"""
    if shape == target:
        return list(range(prod(shape)))
    n = len(target)
    strides = []
    st = 1
    for d in reversed(shape):
        strides.append(st if d != 1 else 0)
        st *= d
    strides = [0] * (n - len(shape)) + strides[::-1]
    out = []

    def go(i, off):
        if i == n:
            out.append(off)
            return
        for k in range(target[i]):
            go(i + 1, off + k * strides[i])
    go(0, 0)
    return out


def asarr(I, v, dtype=None, copy=False):
    """-> Arr or Top"""
    if isinstance(v, Phi):
        v = I.flat(v)
    if isinstance(v, Phi):
        a = asarr(I, v.a, dtype, copy)
        b = asarr(I, v.b, dtype, copy)
        r = I.flat(Phi(v.cond, a, b))
        return r if isinstance(r, Arr) else I.top("array of Phi")
    if isinstance(v, Arr):
        if dtype is not None and dtype != I.rawdtype(v):
            return I.newarr(I.elems(v), v.shape, dtype)
        if copy:
            return I.newarr(I.elems(v), v.shape, I.rawdtype(v))
        if v.series:
            return Arr(v.buf, v.idx, v.shape)
        return v
    if isinstance(v, Top):
        return v
    if isinstance(v, Opaque):
        return I.top("array of opaque %s" % v.what)
    if isinstance(v, Masked):
        return v
    if isnum(v):
        return I.newarr([I.N(v)], (), dtype)
    if isinstance(v, DF):
        cols = list(I.heap[v.id]["cols"].values())
        if I.heap[v.id]["n"] is None:
            return I.top("array of an unknown table")
        if not cols:
            return I.newarr([], (0, 0))
        n = cols[0].size
        es = [I.elems(c) for c in cols]
        return I.newarr([es[j][i] for i in range(n) for j in range(len(cols))], (n, len(cols)))
    if isinstance(v, (Lst, tuple, range, list)):
        items = list(I.heap[v.id]) if isinstance(v, Lst) else list(v)
        if not items:
            return I.newarr([], (0,), dtype or "f")
        subs = []
        for x in items:
            s = asarr(I, x)
            if isinstance(s, Masked):
                return I.top("array of masked")
            if not isinstance(s, Arr):
                if isinstance(x, str):
                    return I.top("string array")
                return s if isinstance(s, Top) else I.top("array element")
            subs.append(s)
        sh = subs[0].shape
        for s in subs[1:]:
            if s.shape != sh:
                raise PyRaise("ValueError", "setting an array element with a sequence (inhomogeneous shape)")
        el = []
        for s in subs:
            el.extend(I.elems(s))
        return I.newarr(el, (len(subs),) + sh, dtype)
    if isinstance(v, str):
        return I.top("string array")
    if v is None:
        return I.top("array(None)")
    if isinstance(v, RaiseV):
        raise PyRaise("Raised", v.msg)
    if v is UNDEF:
        raise PyRaise("UnboundLocalError", "")
    return I.top("array of %s" % type(v).__name__)


def ew(I, f, *args):
    """elementwise f over broadcast arguments"""
    vals = []
    masked = None
    ser = False
    for a in args:
        if isinstance(a, Phi):
            a = I.flat(a)
            if isinstance(a, Phi):
                others = args
                k = [i for i, x in enumerate(args)]
                i = list(args).index(next(x for x in args if isinstance(x, Phi) and isinstance(I.flat(x), Phi)))
                ph = args[i]
                return I.either(ph.cond,
                                lambda: ew(I, f, *[ph.a if j == i else x for j, x in enumerate(args)]),
                                lambda: ew(I, f, *[ph.b if j == i else x for j, x in enumerate(args)]))
        if isinstance(a, Top):
            return Top(a.reason)
        if isinstance(a, Opaque):
            return I.top("arithmetic on opaque %s" % a.what)
        if isinstance(a, RaiseV):
            raise PyRaise("Raised", a.msg)
        if isinstance(a, Masked):
            masked = a
        elif isinstance(a, (Lst, tuple, range)):
            a = asarr(I, a)
            if isinstance(a, Top):
                return a
        elif isinstance(a, DF):
            return I.top("DataFrame arithmetic")
        elif not isinstance(a, Arr):
            a = I.N(a)
        if isinstance(a, Arr) and a.series:
            ser = True
        vals.append(a)
    if masked is not None:
        cols = []
        for a in vals:
            if isinstance(a, Masked):
                if [m.id for m in a.mask] != [m.id for m in masked.mask]:
                    return I.top("differently masked operands")
                cols.append(a.elems)
            elif isinstance(a, Arr):
                if a.size != 1:
                    return I.top("masked with array")
                cols.append(I.elems(a) * len(masked.elems))
            else:
                cols.append([a] * len(masked.elems))
        return Masked([f(*t) for t in zip(*cols)], masked.mask, "f")
    shapes = [a.shape for a in vals if isinstance(a, Arr)]
    if not shapes:
        return f(*vals)
    sh = bshape(shapes)
    cols = []
    n = prod(sh)
    for a in vals:
        if isinstance(a, Arr):
            es = I.elems(a)
            cols.append([es[i] for i in bindex(a.shape, sh)])
        else:
            cols.append([a] * n)
    out = [f(*t) for t in zip(*cols)]
    if sh == ():
        return out[0]
    r = I.newarr(out, sh)
    if ser:
        r.series = True
    return r


def dot(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if isinstance(a, Top) or isinstance(b, Top) or isinstance(a, Masked) or isinstance(b, Masked):
        return I.top("dot")
    if a.ndim == 0 or b.ndim == 0:
        return ew(I, ir.mul, a, b)
    ea, eb = I.elems(a), I.elems(b)
    if a.shape[-1] != (b.shape[-2] if b.ndim > 1 else b.shape[0]):
        raise PyRaise("ValueError", "shapes %s and %s not aligned" % (a.shape, b.shape))
    k = a.shape[-1]
    if b.ndim == 1:
        rows = prod(a.shape[:-1])
        out = []
        for r in range(rows):
            out.append(nsum([ir.mul(ea[r * k + j], eb[j]) for j in range(k)]))
        sh = a.shape[:-1]
    elif b.ndim == 2:
        rows = prod(a.shape[:-1])
        n = b.shape[1]
        out = []
        for r in range(rows):
            for c in range(n):
                out.append(nsum([ir.mul(ea[r * k + j], eb[j * n + c]) for j in range(k)]))
        sh = a.shape[:-1] + (n,)
    else:
        return I.top("dot nd")
    if sh == ():
        return out[0]
    return I.newarr(out, sh)


def nsum(xs):
    if not xs:
        return C(0, "f")
    r = xs[0]
    for x in xs[1:]:
        r = ir.add(r, x)
    return ir.asnum(r)


def norm_axis(ax, n):
    if ax < -n or ax >= n:
        raise PyRaise("AxisError", "axis %d out of bounds" % ax)
    return ax % n


def reduce(I, a, axis, f, keepdims=False):
    a = asarr(I, a)
    if isinstance(a, Top):
        return a
    if isinstance(a, Masked):
        return I.top("reduction of masked")
    es = I.elems(a)
    if axis is None:
        r = f(es)
        if keepdims:
            return I.newarr([r], (1,) * a.ndim)
        return r
    if isinstance(axis, (tuple, Lst)):
        ax = list(I.iterate(axis))
        r = a
        for x in sorted([norm_axis(int(k), a.ndim) for k in ax], reverse=True):
            r = reduce(I, r, x, f, keepdims)
        return r
    axis = toint(I, axis)
    if axis is None:
        return I.top("axis")
    axis = norm_axis(axis, a.ndim)
    sh = a.shape
    outer, n, inner = prod(sh[:axis]), sh[axis], prod(sh[axis + 1:])
    out = []
    for o in range(outer):
        for i in range(inner):
            out.append(f([es[(o * n + k) * inner + i] for k in range(n)]))
    nsh = sh[:axis] + ((1,) if keepdims else ()) + sh[axis + 1:]
    if nsh == ():
        return out[0]
    r = I.newarr(out, nsh)
    return r


def toint(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Node):
        c = ir.cval(v)
        if c is not None and c.denominator == 1:
            return int(c)
        return None
    if isinstance(v, Arr) and v.size == 1:
        return toint(I, I.elems(v)[0])
    return None


def dtype_name(I, d):
    if d is None:
        return None
    if isinstance(d, Native):
        n = d.name.split(".")[-1]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, Opaque):
        n = d.what
        if n.startswith("dtype:"):
            n = n[6:]
    else:
        return None
    n = n.lstrip("<=|") if isinstance(d, str) else n
    if n in ("complex64", "c8", "F", "csingle", "singlecomplex"):
        return "z"
    if n.startswith("complex") or n in ("c16", "cdouble", "cfloat", "D", "c32", "clongdouble"):
        return "c"
    if n in ("float32", "f4", "f", "single"):
        return "g"
    if n in ("float16", "f2", "e", "half"):
        return "h"
    if n.startswith("float") or n in ("double", "f8", "longdouble", "longfloat", "d", "g"):
        return "f"
    if n.startswith("int") or n.startswith("uint") or n in ("i8", "i4", "i2", "i", "l", "q", "h", "u1", "u2", "u4", "u8",
                                                            "short", "long", "longlong", "intc"):
        return "i"
    if n.startswith("bool") or n in ("b1", "?"):
        return "b"
    return None


CODES = "bifcghzO"


def dtype_attr(I, o, name):
    n = o.what[6:]
    c = dtype_name(I, o)
    kind = {"g": "f", "h": "f", "z": "c"}.get(c, c)
    if name == "kind":
        return kind or "O"
    if name == "char":
        return {"float64": "d", "int64": "l", "complex128": "D", "bool": "?", "object": "O", "float32": "f", "float16": "e", "complex64": "F"}[n]
    if name in ("name", "__name__"):
        return n
    if name == "str":
        return {"float64": "<f8", "int64": "<i8", "complex128": "<c16", "bool": "|b1", "object": "|O", "float32": "<f4",
                "float16": "<f2", "complex64": "<c8"}[n]
    if name == "itemsize":
        return {"float64": 8, "int64": 8, "complex128": 16, "bool": 1, "object": 8, "float32": 4, "float16": 2, "complex64": 8}[n]
    if name == "type":
        return Native("numpy." + n)
    return I.top("dtype attribute")


def issubdtype(I, a, b):
    """None when not decided"""
    c = dtype_name(I, a)
    if c is None:
        return None
    c = {"g": "f", "h": "f", "z": "c"}.get(c, c)
    n = b.name.split(".")[-1] if isinstance(b, Native) else b
    g = {"floating": "f", "integer": "i", "signedinteger": "i", "number": "ifc", "inexact": "fc", "complexfloating": "c",
         "generic": "bifc", "unsignedinteger": "", "character": "", "flexible": "", "object_": ""}.get(n)
    if g is not None:
        return c in g
    d = dtype_name(I, b)
    return None if d is None else d == dtype_name(I, a)


DTN = {"f": "float64", "i": "int64", "c": "complex128", "b": "bool", "O": "object", "g": "float32", "h": "float16", "z": "complex64"}
DTI = {"dtype:" + v for v in DTN.values()}


# ------------------------------------------------------------------ indexing
def norm_key(k):
    return k if isinstance(k, tuple) else (k,)


def is_ellipsis(k):
    return isinstance(k, Native) and k.name == "builtins.Ellipsis"


def slice_range(I, s, n):
    def g(x):
        if x is None:
            return None
        i = toint(I, x)
        if i is None:
            raise KeyError
        return i
    try:
        return range(*slice(g(s.a), g(s.b), g(s.c)).indices(n))
    except KeyError:
        return None


def bshape_into(src, dst):
    try:
        t = bshape([src, dst])
    except PyRaise:
        t = None
    if t != dst:
        raise PyRaise("ValueError", "could not broadcast input array from shape %s into shape %s" % (src, dst))


def boolscalar(I, k):
    """the condition of an index that is one truth value"""
    if isinstance(k, Arr) and k.ndim == 0 and I.dtype(k) == "b":
        k = I.elems(k)[0]
    if isinstance(k, bool) or isinstance(k, Node) and k.kind == "b":
        return decided(I, I.N(k))
    return None


def locate(I, o, key):
    """-> ('view', positions, shape) | ('copy', positions, shape) | ('mask', masknodes) | None"""
    key = list(norm_key(key))
    nreal = 0
    for k in key:
        if k is None or is_ellipsis(k):
            continue
        if isinstance(k, Arr) and I.dtype(k) == "b":
            nreal += k.ndim
        else:
            nreal += 1
    if nreal > o.ndim:
        raise PyRaise("IndexError", "too many indices for array")
    if any(is_ellipsis(k) for k in key):
        i = [j for j, k in enumerate(key) if is_ellipsis(k)][0]
        key = key[:i] + [SliceV(None, None, None)] * (o.ndim - nreal) + key[i + 1:]
    else:
        key = key + [SliceV(None, None, None)] * (o.ndim - nreal)
    # masks
    for j, k in enumerate(key):
        if isinstance(k, (Lst, tuple)):
            k = key[j] = asarr(I, k)
        if isinstance(k, Node) and k.kind == "b" or isinstance(k, bool):
            k = key[j] = I.newarr([I.N(k)], ())
        if isinstance(k, Arr) and I.dtype(k) == "b" and k.size:
            es = [decided(I, e) for e in I.elems(k)]
            if k.shape != o.shape[:k.ndim] and len(key) == 1:
                raise PyRaise("IndexError", "boolean index did not match")
            if all(e in (ir.TRUE, ir.FALSE) for e in es):
                if k.ndim == 1:
                    key[j] = I.newarr([C(i) for i, e in enumerate(es) if e is ir.TRUE],
                                      (sum(1 for e in es if e is ir.TRUE),), "i")
                elif k.shape == o.shape:
                    pos = [i for i, e in enumerate(es) if e is ir.TRUE]
                    return ("copy", pos, (len(pos),))
                else:
                    return None
            else:
                if k.shape == o.shape:
                    return ("mask", es)
                return None
    # axis walk
    axes = []      # list of (positions list or int-array) for each source axis
    outdims = []   # ('new',) | ('ax', i) | ('fancy', i)
    src = 0
    fancy = []
    for k in key:
        if k is None:
            outdims.append(("new",))
            continue
        n = o.shape[src]
        if isinstance(k, SliceV):
            r = slice_range(I, k, n)
            if r is None:
                return None
            axes.append(list(r))
            outdims.append(("ax", len(axes) - 1))
        else:
            i = toint(I, k) if not (isinstance(k, Arr) and k.ndim > 0) else None
            if i is not None:
                if i < -n or i >= n:
                    raise PyRaise("IndexError", "index %d is out of bounds for axis with size %d" % (i, n))
                axes.append([i % n])
            elif isinstance(k, Arr):
                idx = [toint(I, e) for e in I.elems(k)]
                if any(x is None for x in idx) or I.dtype(k) not in "ib":
                    if I.dtype(k) == "f":
                        raise PyRaise("IndexError", "arrays used as indices must be of integer type")
                    return None
                for x in idx:
                    if x < -n or x >= n:
                        raise PyRaise("IndexError", "index out of bounds")
                axes.append([x % n for x in idx])
                fancy.append((len(axes) - 1, k.shape))
                outdims.append(("fancy", len(axes) - 1))
            elif isinstance(k, Node) and k.kind == "f" and k.op != "top":
                raise PyRaise("IndexError", "only integers are valid indices")
            elif isinstance(k, str):
                raise PyRaise("IndexError", "string index")
            else:
                return None
        src += 1
    strides = []
    st = 1
    for d in reversed(o.shape):
        strides.append(st)
        st *= d
    strides = strides[::-1]
    if len(fancy) > 1:
        # pointwise pairing of equally shaped index arrays
        shs = {s for _, s in fancy}
        if len(shs) != 1 or any(d[0] == "ax" for d in outdims):
            return None
        fi = {a for a, _ in fancy}
        base = sum(axes[i][0] * strides[i] for i in range(len(axes)) if i not in fi)
        sh = fancy[0][1]
        return ("copy", [base + sum(axes[i][t] * strides[i] for i in fi) for t in range(prod(sh))], sh)
    shape = []
    loops = []
    for d in outdims:
        if d[0] == "new":
            shape.append(1)
            loops.append(None)
        elif d[0] == "ax":
            shape.append(len(axes[d[1]]))
            loops.append(d[1])
        else:
            fs = dict(fancy)[d[1]]
            shape.extend(fs)
            loops.append(d[1])
    base = 0
    used = {l for l in loops if l is not None}
    for i in range(len(axes)):
        if i not in used:
            base += axes[i][0] * strides[i]
    out = []

    def go(j, off):
        if j == len(loops):
            out.append(off)
            return
        l = loops[j]
        if l is None:
            go(j + 1, off)
        else:
            for x in axes[l]:
                go(j + 1, off + x * strides[l])
    go(0, base)
    return ("copy" if fancy else "view", out, tuple(shape))


def decided(I, e):
    d = I.decide(e) if e.kind == "b" else None
    return ir.TRUE if d is True else ir.FALSE if d is False else e


def getitem(I, o, k):
    if isinstance(o, Phi):
        f = I.flat(o)
        if isinstance(f, Phi):
            return I.lift1(lambda x: getitem(I, x, k), f)
        o = f
    if isinstance(k, Phi):
        return I.either(k.cond, lambda: getitem(I, o, k.a), lambda: getitem(I, o, k.b))
    if isinstance(o, Top):
        return Top(o.reason)
    if isinstance(o, RaiseV):
        raise PyRaise("Raised", o.msg)
    if isinstance(o, Opaque):
        return Opaque(o.what + "[]")
    if isinstance(o, (Lst, tuple, str, range)):
        seq = I.heap[o.id] if isinstance(o, Lst) else o
        if isinstance(k, SliceV):
            r = slice_range(I, k, len(seq))
            if r is None:
                return I.top("slice")
            out = tuple(seq[i] for i in r)
            if isinstance(o, str):
                return "".join(out)
            return Lst(I.alloc(out)) if isinstance(o, Lst) else out
        i = toint(I, k)
        if i is None:
            if isinstance(k, (Arr, tuple, Lst, str)) or k is None:
                raise PyRaise("TypeError", "list indices must be integers or slices")
            if isinstance(k, Node) and k.op in ("sym", "const"):
                raise PyRaise("TypeError", "list indices must be integers or slices, not float")
            if isinstance(k, Node) and k.kind == "i" and len(seq) <= 32 and all(isnum(x) for x in seq):
                return gather(I, [I.N(x) for x in seq], k)
            return I.top("symbolic index")
        if i < -len(seq) or i >= len(seq):
            raise PyRaise("IndexError", "index out of range")
        return seq[i]
    if isinstance(o, Dct):
        d = I.heap[o.id]
        kk = I.hkey(k)
        if kk in d:
            v = d[kk]
            if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                return v.b if v.a is UNDEF else v.a
            if isinstance(v, Node) and v.op == "sel":
                if v.args[1].op == "raise" and v.args[1].data == "UnboundLocalError":
                    return v.args[2]
                if v.args[2].op == "raise" and v.args[2].data == "UnboundLocalError":
                    return v.args[1]
            return v
        if isinstance(k, Top):
            return I.top("dict key")
        # a symbolic key may still equal a stored one
        res = RaiseV("KeyError: %s" % (kk,))
        hit = False
        for k2, v in reversed(list(d.items())):
            t = I.truth(I.compare(ast.Eq(), I.unkey(k2), k))
            if t is True:
                return v
            if t is not False:
                res = I.merge(t, v, res)
                hit = True
        if not hit:
            raise PyRaise("KeyError", str(kk))
        return res
    if isinstance(o, DF):
        return df_getitem(I, o, k)
    if isinstance(o, DFLoc):
        return df_iloc(I, o.df, k)
    if isinstance(o, Native):
        ambient(I, o.name)
        return Opaque(o.name + "[]")
    if isinstance(o, Inst):
        r = I.class_lookup(o.cls, "__getitem__")
        if r:
            return I.call(Bound(r[0], o), [k], {})
        raise PyRaise("TypeError", "not subscriptable")
    if isinstance(o, Masked):
        if isinstance(k, SliceV) and k.a is None and k.b is None and k.c is None:
            return o
        i = toint(I, k)
        if i is not None:
            return masked_pick(I, o, i)
        return I.top("index of masked")
    if isinstance(o, Node):
        if o.op == "top":
            return I.topn("index of unknown")
        if o.op == "const" or (o.op == "sym" and o.data[0] in I.pyfloat):
            raise PyRaise("TypeError", "'float' object is not subscriptable")
        if isinstance(k, (bool,)) or (isinstance(k, Node) and k.kind == "b"):
            kn = I.N(k)
            d = decided(I, kn)
            if d is ir.TRUE:
                return I.newarr([o], (1,))
            if d is ir.FALSE:
                return I.newarr([], (0,), "f")
            return Masked([o], [d], o.kind)
        if isinstance(k, tuple) and k == ():
            return o
        if o.op in ("sym", "const"):
            raise PyRaise("TypeError", "'float' object is not subscriptable")
        if is_ellipsis(k):
            return o
        if k is None or (isinstance(k, tuple) and all(x is None for x in k)):
            return I.newarr([o], (1,) * len(norm_key(k)))
        raise PyRaise("IndexError", "invalid index to scalar variable")
    if isinstance(o, (int, float, bool)) or o is None:
        raise PyRaise("TypeError", "object is not subscriptable")
    if isinstance(o, Arr):
        if isinstance(k, Top):
            return I.top("unknown index")
        if isinstance(k, Masked):
            return I.top("masked index")
        if isinstance(k, str) and o.series:
            return I.top("series label")
        g = symindex(I, o, k)
        if g is not None:
            es = I.elems(o)
            if isinstance(g, Node):
                return gather(I, es, g)
            return I.newarr([gather(I, es, x) for x in I.elems(g)], g.shape, I.rawdtype(o))
        d = boolscalar(I, k)
        if d is not None:
            if d is ir.TRUE:
                return I.newarr(I.elems(o), (1,) + tuple(o.shape), I.rawdtype(o))
            if d is ir.FALSE:
                return I.newarr([], (0,) + tuple(o.shape), I.rawdtype(o))
            return Masked(I.elems(o), [d], I.dtype(o)) if o.size == 1 else I.top("conditional index")
        loc = locate(I, o, k)
        if loc is None:
            return I.top("index expression")
        if loc[0] == "mask":
            return Masked(I.elems(o), loc[1], I.dtype(o))
        _, pos, sh = loc
        if sh == () :
            return I.elems(o)[pos[0]]
        if loc[0] == "copy":
            es = I.elems(o)
            r = I.newarr([es[p] for p in pos], sh, I.rawdtype(o))
            r.series = o.series
            return r
        return Arr(o.buf, tuple(o.idx[p] for p in pos), sh, o.series)
    if isinstance(o, (Func, ClassV, Bound)):
        raise PyRaise("TypeError", "not subscriptable")
    return I.top("getitem %s" % type(o).__name__)


def symindex(I, o, k):
    """k when it is a value-dependent integer index (array) into the 1-d array o"""
    if o.ndim != 1 or o.size > 32:
        return None
    if isinstance(k, Node) and k.kind == "i" and k.op not in ("const", "top") and toint(I, k) is None:
        return k
    if isinstance(k, Lst):
        seq = I.heap[k.id]
        if seq and all(isinstance(x, (int, Node)) and not isinstance(x, bool) for x in seq) and any(isinstance(x, Node) and x.kind == "i" and x.op not in ("const", "top") for x in seq):
            k = asarr(I, k)
    if isinstance(k, Arr) and k.ndim == 1 and I.dtype(k) == "i" and any(toint(I, e) is None for e in I.elems(k)):
        if any(e.op == "top" for e in I.elems(k)):
            return None
        return k
    return None


def gather(I, es, k):
    """es[k] for a value-dependent integer k"""
    n = len(es)
    r = ir.raisen("IndexError: index out of range")
    for p in range(n):
        c = ir.or_(decided(I, ir.eq(k, C(p))), decided(I, ir.eq(k, C(p - n))))
        r = ir.sel(c, es[p], r)
    return r


def masked_reduce(I, o, name):
    """reductions of the selected elements"""
    if name in ("sum", "nansum"):
        return nsum([ir.sel(m, e, C(Fraction(0))) for m, e in zip(o.mask, o.elems)])
    if name == "any":
        return anyn([ir.and_(m, _bool(e)) for m, e in zip(o.mask, o.elems)])
    if name == "all":
        return alln([ir.or_(ir.not_(m), _bool(e)) for m, e in zip(o.mask, o.elems)])
    if name in ("prod", "product"):
        r = C(Fraction(1))
        for m, e in zip(o.mask, o.elems):
            r = ir.mul(r, ir.sel(m, e, C(Fraction(1))))
        return r
    if name == "mean":
        return ir.div(nsum([ir.sel(m, e, C(Fraction(0))) for m, e in zip(o.mask, o.elems)]), value_attr(I, o, "size"))
    if name in ("max", "min", "amax", "amin"):
        f = "max2" if "max" in name else "min2"
        has, val = ir.FALSE, None
        for m, e in zip(o.mask, o.elems):
            if m is ir.FALSE:
                continue
            if val is None:
                has, val = m, e
                continue
            # where this one is selected it competes with what was selected before
            val = ir.sel(ir.and_(has, m), ir.fn(f, val, e), ir.sel(m, e, val))
            has = ir.or_(has, m)
        if val is None:
            raise PyRaise("ValueError", "zero-size array to reduction operation")
        return ir.sel(has, val, ir.raisen("ValueError: zero-size array to reduction operation"))
    return I.top("reduction of masked")


def masked_pick(I, o, i):
    """i-th selected element of a masked vector"""
    n = len(o.elems)
    res = ir.raisen("IndexError: masked selection too short")
    # position p is the i-th selected one
    if n > 40:
        return I.topn("masked pick")
    if i >= 0:
        order = list(range(n))
        want = i
    else:
        order = list(range(n))[::-1]
        want = -i - 1
    # counts[c] = condition that c selected so far
    counts = {0: ir.TRUE}
    picks = []
    for p in order:
        m = o.mask[p]
        picks.append((ir.and_(counts.get(want, ir.FALSE), m), o.elems[p]))
        nc = {}
        for c, g in counts.items():
            a = ir.and_(g, ir.not_(m))
            b = ir.and_(g, m)
            nc[c] = ir.or_(nc.get(c, ir.FALSE), a)
            if c < want + 1:
                nc[c + 1] = ir.or_(nc.get(c + 1, ir.FALSE), b)
        counts = nc
    for g, v in reversed(picks):
        res = ir.sel(g, v, res)
    return res


def setitem(I, o, k, v):
    if isinstance(o, Phi):
        c = o.cond
        I.either(c, lambda: setitem(I, o.a, k, v), lambda: setitem(I, o.b, k, v))
        return
    if isinstance(k, Phi):
        I.either(k.cond, lambda: setitem(I, o, k.a, v), lambda: setitem(I, o, k.b, v))
        return
    if isinstance(o, (Top, Opaque)):
        return
    if isinstance(o, Native):
        I.effect("state", "item of %s assigned" % o.name)
        return
    if isinstance(o, Lst):
        seq = list(I.heap[o.id])
        if isinstance(k, SliceV):
            r = slice_range(I, k, len(seq))
            it = I.iterate(v)
            if r is None or it is None or r.step != 1:
                I.heap[o.id] = tuple(I.top("list slice store") for _ in seq)
                return
            seq[r.start:max(r.stop, r.start)] = it
            I.heap[o.id] = tuple(seq)
            return
        i = toint(I, k)
        if i is None:
            I.heap[o.id] = tuple(I.top("list store") for _ in seq)
            return
        if i < -len(seq) or i >= len(seq):
            raise PyRaise("IndexError", "list assignment index out of range")
        seq[i] = v
        I.heap[o.id] = tuple(seq)
        return
    if isinstance(o, Dct):
        d = dict(I.heap[o.id])
        d[I.hkey(k)] = v
        I.heap[o.id] = d
        return
    if isinstance(o, tuple) or isinstance(o, str):
        raise PyRaise("TypeError", "object does not support item assignment")
    if isinstance(o, DF):
        df_setcol(I, o, k, v)
        return
    if isinstance(o, Inst):
        r = I.class_lookup(o.cls, "__setitem__")
        if r:
            I.call(Bound(r[0], o), [k, v], {})
            return
        raise PyRaise("TypeError", "item assignment")
    if isinstance(o, (Node, int, float)):
        if isinstance(o, Node) and o.op == "top":
            return
        raise PyRaise("TypeError", "object does not support item assignment")
    if isinstance(o, Masked):
        # x[mask][...] = v writes to a copy
        return
    if not isinstance(o, Arr):
        I.top("setitem %s" % type(o).__name__)
        return
    if isinstance(k, Top):
        I.write_buf(o, range(o.size), [I.topn("store at unknown index") for _ in range(o.size)])
        return
    g = symindex(I, o, k)
    if g is not None:
        ks = [g] if isinstance(g, Node) else I.elems(g)
        va = asarr(I, v) if not isnum(v) else None
        if va is None or (isinstance(va, Arr) and va.size in (1, len(ks))):
            vs = [I.N(v)] * len(ks) if va is None else I.elems(va) * (len(ks) if va.size == 1 else 1)
            es = I.elems(o)
            n = o.size
            for kk, vv in zip(ks, vs):
                es = [ir.sel(ir.or_(decided(I, ir.eq(kk, C(p))), decided(I, ir.eq(kk, C(p - n)))), vv, e) for p, e in enumerate(es)]
            I.write_buf(o, range(o.size), es)
            return
    d = boolscalar(I, k)
    if d is not None:
        if isinstance(v, Phi):
            v = I.flat(v)
        if isinstance(v, Masked) and [m.id for m in v.mask] == [d.id]:
            # a selection of shape (1,) or (0,); the empty one does not fit into the shape (0, n) selected here
            if d is not ir.TRUE and o.ndim:
                v0 = I.cast(v.elems[0], I.dtype(o))
                I.write_buf(o, range(o.size), [ir.sel(d, v0, I.topn("selection that may not fit")) for _ in range(o.size)])
                return
            v = v.elems[0]
        if d is ir.FALSE:
            va = v if isnum(v) or isinstance(v, (Masked, Top)) else asarr(I, v)
            if isinstance(va, Arr):
                bshape_into(va.shape, (0,) + tuple(o.shape))
            return
        if d is ir.TRUE:
            return setitem(I, o, SliceV(None, None, None) if o.ndim else (), v)
        va = v if isnum(v) else asarr(I, v)
        es = I.elems(o)
        if isinstance(va, Arr) and va.size == 1:
            va = I.elems(va)[0]
        new = [I.cast(I.N(va), I.dtype(o))] * len(es) if isnum(va) else [I.topn("conditional store") for _ in es]
        I.write_buf(o, range(o.size), [ir.sel(d, x, y) for x, y in zip(new, es)])
        return
    loc = locate(I, o, k)
    if isinstance(v, Phi):
        v = I.flat(v)
    if loc is None:
        I.write_buf(o, range(o.size), [I.topn("store at unknown index") for _ in range(o.size)])
        return
    if loc[0] == "mask":
        mask = loc[1]
        old = I.elems(o)
        if isinstance(v, Masked):
            if [m.id for m in v.mask] == [m.id for m in mask]:
                new = v.elems
            else:
                new = [I.topn("masked store mismatch") for _ in old]
        elif isinstance(v, (Lst, tuple)) or (isinstance(v, Arr) and v.size != 1):
            new = [I.topn("masked store of array") for _ in old]
        elif isinstance(v, Top):
            new = [I.topn(v.reason) for _ in old]
        else:
            new = [I.N(v)] * len(old)
        dt = I.dtype(o)
        new = [I.cast(x, dt) for x in new]
        I.write_buf(o, range(o.size), [ir.sel(m, x, y) for m, x, y in zip(mask, new, old)])
        return
    _, pos, sh = loc
    if isinstance(v, Top):
        I.write_buf(o, pos, [I.topn(v.reason) for _ in pos])
        return
    if isinstance(v, Masked):
        I.write_buf(o, pos, [I.topn("masked store") for _ in pos])
        return
    if isinstance(v, (Lst, tuple, range)):
        v = asarr(I, v)
        if isinstance(v, Top):
            I.write_buf(o, pos, [I.topn(v.reason) for _ in pos])
            return
    if isinstance(v, Arr):
        vs = v.shape
        if sh == () and v.size == 1 and v.ndim > 0:
            # numpy: setting an element with a size-1 sequence
            I.scalar_from_array = True
            raise PyRaise("ValueError", "setting an array element with a sequence")
        while len(vs) > len(sh) and vs[0] == 1:
            vs = vs[1:]
        try:
            t = bshape([vs, sh])
        except PyRaise:
            t = None
        if t != sh:
            raise PyRaise("ValueError", "could not broadcast input array from shape %s into shape %s" % (v.shape, sh))
        es = I.elems(v)
        I.write_buf(o, pos, [es[i] for i in bindex(vs, sh)])
        return
    n = I.N(v)
    I.write_buf(o, pos, [n] * len(pos))


# ------------------------------------------------------------------ pandas (minimal)
def numstr(I, v):
    """text of a number: exact for constants, one distinct token per symbolic value otherwise"""
    v = I.flat(v)
    if isinstance(v, (str, int)):
        return str(v)
    if isinstance(v, Node) and v.op != "top":
        c = ir.cval(v)
        if c is not None:
            return str(int(c)) if v.kind == "i" else str(float(c))
        return "num#%d" % v.id
    return Opaque("string")


def pynum(I, v):
    """python number of a constant (the value itself otherwise)"""
    if isinstance(v, (str, int, float)):
        return v
    v = I.flat(v)
    if isinstance(v, Node):
        c = ir.cval(v)
        if c is not None:
            return int(c) if v.kind == "i" else float(c)
    return v


def fmtstr(I, spec, v):
    x = pynum(I, v)
    if isinstance(spec, str) and type(x) in (int, str, float):
        try:
            return format(x, spec)
        except (TypeError, ValueError):
            pass
    return Opaque("string")


def df_iloc(I, df, k):
    h = I.heap[df.id]
    cols = list(h["cols"].values())
    if h.get("unknown"):
        return I.top("DataFrame with unknown columns")
    m = asarr(I, df)
    if not isinstance(m, Arr):
        return I.top("DataFrame.iloc")
    r = getitem(I, m, k)
    if isinstance(r, Arr):
        if r.ndim != 1:
            return I.top("DataFrame.iloc block")
        r = I.newarr(I.elems(r), r.shape, I.rawdtype(r))
        r.series = True
    return r


def df_getitem(I, o, k):
    h = I.heap[o.id]
    if isinstance(k, str):
        if k not in h["cols"]:
            raise PyRaise("KeyError", k)
        a = h["cols"][k]
        if not isinstance(a, Arr):
            return I.top("unknown column")
        return Arr(a.buf, a.idx, a.shape, True)
    if isinstance(k, Lst):
        names = list(I.heap[k.id])
        if all(isinstance(n, str) for n in names):
            cols = {}
            for n in names:
                if n not in h["cols"]:
                    raise PyRaise("KeyError", n)
                a = h["cols"][n]
                cols[n] = I.newarr(I.elems(a), a.shape, I.rawdtype(a)) if isinstance(a, Arr) else a
            return DF(I.alloc({"cols": cols, "n": h["n"]}))
    return I.top("DataFrame indexing")


def df_setcol(I, o, k, v):
    h = dict(I.heap[o.id])
    cols = dict(h["cols"])
    if not isinstance(k, str):
        I.top("DataFrame store")
        h["unknown"] = True
        h["cols"] = {n: I.newarr([I.topn("column") for _ in range(a.size)], a.shape) if isinstance(a, Arr) else a for n, a in cols.items()}
        I.heap[o.id] = h
        return
    if isinstance(v, Phi):
        v = I.flat(v)
    if isinstance(v, (Arr, Lst, tuple)):
        v = asarr(I, v, copy=True)
    known = isinstance(v, Arr)
    if h["n"] is None and known and v.ndim == 1:
        h["n"] = v.size
        cols = {n: a if isinstance(a, Arr) else I.newarr([I.topn("column") for _ in range(v.size)], (v.size,)) for n, a in cols.items()}
    if h["n"] is None or (not cols and not known and not isnum(v)):
        I.top("unknown column")
        cols[k] = Top("unknown column")
        h["cols"] = cols
        h["n"] = None
        I.heap[o.id] = h
        return
    if isnum(v):
        a = I.newarr([I.N(v)] * h["n"], (h["n"],))
    elif isinstance(v, (Arr, Lst, tuple)):
        a = asarr(I, v, copy=True)
    else:
        a = I.newarr([I.topn("column") for _ in range(h["n"])], (h["n"],))
    if not isinstance(a, Arr):
        a = I.newarr([I.topn("column") for _ in range(h["n"])], (h["n"],))
    if a.ndim != 1 or (cols and a.size != h["n"]):
        if a.size == 1:
            a = I.newarr(I.elems(a) * h["n"], (h["n"],))
        else:
            raise PyRaise("ValueError", "Length of values does not match length of index")
    a.series = False
    cols[k] = a
    h["cols"] = cols
    if not h["n"]:
        h["n"] = a.size
    I.heap[o.id] = h


def df_setcolumns(I, o, v):
    names = I.iterate(v)
    h = dict(I.heap[o.id])
    if names is None or len(names) != len(h["cols"]):
        I.top("columns")
        return
    h["cols"] = dict(zip(names, h["cols"].values()))
    I.heap[o.id] = h


def mk_df(I, args, kw):
    data = args[0] if args else kw.get("data")
    columns = kw.get("columns")
    if len(args) > 2:
        columns = args[2]
    names = None
    if columns is not None:
        names = I.iterate(columns)
        if names is None:
            return I.top("DataFrame columns")
    cols = {}
    if data is None:
        return DF(I.alloc({"cols": {}, "n": 0}))
    if isinstance(data, DF):
        h = I.heap[data.id]
        if h["n"] is None:
            return I.top("unknown table")
        for n, a in h["cols"].items():
            cols[n] = I.newarr(I.elems(a), a.shape, I.rawdtype(a))
        return DF(I.alloc({"cols": cols, "n": h["n"]}))
    if isinstance(data, Dct):
        n = 0
        for k, v in I.heap[data.id].items():
            if isnum(v):
                cols[k] = v
                continue
            a = asarr(I, v, copy=True)
            if not isinstance(a, Arr):
                return I.top("DataFrame data")
            a.series = False
            cols[k] = a
            n = max(n, a.size)
        for k in list(cols):
            if not isinstance(cols[k], Arr):
                cols[k] = I.newarr([I.N(cols[k])] * n, (n,))
            if cols[k].size != n:
                raise PyRaise("ValueError", "All arrays must be of the same length")
        if names is not None:
            cols = {k: cols[k] for k in names if k in cols}
        return DF(I.alloc({"cols": cols, "n": n}))
    a = asarr(I, data, copy=True)
    if not isinstance(a, Arr):
        return I.top("DataFrame data")
    if a.ndim == 1:
        a = Arr(a.buf, a.idx, (a.size, 1))
    es = I.elems(a)
    n, m = a.shape
    if names is None:
        names = list(range(m))
    if len(names) != m:
        raise PyRaise("ValueError", "columns passed")
    for j, nm in enumerate(names):
        cols[nm] = I.newarr([es[i * m + j] for i in range(n)], (n,))
    return DF(I.alloc({"cols": cols, "n": n}))


# ------------------------------------------------------------------ attributes
ARR_METHODS = {"sum", "mean", "reshape", "flatten", "ravel", "copy", "astype", "min", "max", "dot", "transpose",
               "squeeze", "tolist", "conj", "conjugate", "any", "all", "cumsum", "prod", "std", "var", "fill", "sort", "tobytes", "tostring",
               "argsort", "argmax", "argmin", "clip", "round", "item", "to_numpy", "isnull", "isna", "notna",
               "notnull", "nonzero", "diagonal", "repeat", "swapaxes", "take", "trace", "view", "fillna", "apply",
               "map", "abs", "where", "between", "itemset", "put", "resize", "unique", "nunique", "cumprod",
               "rolling", "interpolate", "dropna", "describe", "head", "tail", "to_list", "reset_index", "drop",
               "median", "quantile", "shift", "diff", "mask", "gt", "lt", "ge", "le", "eq", "ne", "mul", "add",
               "sub", "div", "pow", "tobytes", "searchsorted", "compress", "choose", "ptp", "plot", "hist",
               "value_counts", "items", "keys", "__len__", "__getitem__", "__setitem__", "setflags", "partition",
               "idxmax", "idxmin", "rename", "sort_values", "corr", "cov", "groupby", "update", "isin", "duplicated",
               "append", "replace", "squeeze", "get", "truediv", "rtruediv", "radd", "rsub", "rmul"}


def value_attr(I, o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(o.shape)
        if name == "size":
            return o.size
        if name == "ndim":
            return o.ndim
        if name == "T":
            return transpose(I, o)
        if name in ("real", "imag"):
            if I.dtype(o) != "c":
                if name == "real":
                    return o
                return I.newarr([C(Fraction(0))] * o.size, o.shape, "f")
            return ew(I, lambda x: ir.fn(name, x), o)
        if name == "dtype":
            return Opaque("dtype:" + DTN[I.rawdtype(o)])
        if name == "flat":
            return Arr(o.buf, o.idx, (o.size,))
        if name in ("values", "array"):
            if o.series:
                return Arr(o.buf, o.idx, o.shape)
            raise PyRaise("AttributeError", "ndarray has no attribute values")
        if name in ("iloc", "loc", "iat", "at", "index", "name", "str", "columns"):
            if o.series:
                if name in ("iloc", "loc", "iat", "at"):
                    return Arr(o.buf, o.idx, o.shape, True)
                if name == "index":
                    return range(o.size)
                return Opaque(name)
            raise PyRaise("AttributeError", name)
        if name == "base":
            return None if o.idx == tuple(range(len(I.heap[o.buf].elems))) else Opaque("base")
        if name in ("nbytes", "itemsize", "flags", "strides", "__doc__", "__class__", "__array_interface__"):
            return Opaque(name)
        if name in ARR_METHODS:
            return Method(o, name)
        if not o.series:
            raise PyRaise("AttributeError", "ndarray has no attribute %s" % name)
        return Method(o, name)
    if isinstance(o, Node):
        if o.op == "top":
            return Method(o, name) if name in ARR_METHODS else I.top("attr of unknown")
        if name in ("real", "imag"):
            return ir.fn(name, o)
        pyfloat = o.op in ("sym", "const") or (o.op == "sel" and all(a.op in ("sym", "const") for a in o.args[1:]))
        if name in ("conjugate", "is_integer", "as_integer_ratio", "hex"):
            return Method(o, name)
        if pyfloat:
            raise PyRaise("AttributeError", "'float' object has no attribute '%s'" % name)
        if name == "size":
            return 1
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "T":
            return o
        if name == "dtype":
            return Opaque("dtype:" + {"f": "float64", "i": "int64", "c": "complex128", "b": "bool"}[o.kind])
        if name in ARR_METHODS:
            return Method(o, name)
        raise PyRaise("AttributeError", name)
    if isinstance(o, (int, float, bool, complex)):
        if name == "real":
            return o
        if name == "imag":
            return 0
        if name in ("conjugate", "is_integer", "bit_length"):
            return Method(o, name)
        raise PyRaise("AttributeError", "'%s' object has no attribute '%s'" % (type(o).__name__, name))
    if isinstance(o, Masked):
        if name in ("real", "imag"):
            return Masked([ir.fn(name, e) for e in o.elems], o.mask, "f")
        if name == "size":
            r = C(0)
            for m in o.mask:
                r = ir.add(r, ir.asnum(m))
            return r
        return Method(o, name)
    if isinstance(o, (Lst, Dct, SetV, str, tuple, DF)):
        if isinstance(o, DF):
            cols = I.heap[o.id]["cols"]
            if name in cols:
                return df_getitem(I, o, name)
            if name == "columns":
                return Lst(I.alloc(tuple(cols)))
            if I.heap[o.id]["n"] is None:
                return I.top("DataFrame.%s of an unknown table" % name) if name in ("shape", "index", "values", "iloc", "iat", "loc", "at", "size", "empty", "T") else Method(o, name)
            if name == "shape":
                return (I.heap[o.id]["n"], len(cols))
            if name == "index":
                return range(I.heap[o.id]["n"])
            if name in ("values",):
                return asarr(I, o)
            if name in ("iloc", "iat"):
                return DFLoc(o)
            if name in ("loc", "at"):
                return I.top("DataFrame.%s" % name)
            if name in ("copy", "drop", "to_numpy", "head", "tail", "apply", "assign", "insert", "rename", "describe",
                        "dropna", "fillna", "iterrows", "itertuples", "isnull", "mean", "to_csv", "reset_index",
                        "sort_values", "keys", "items", "get", "pop", "merge", "join", "groupby", "query", "eval",
                        "astype", "plot", "max", "min", "sum"):
                return Method(o, name)
            raise PyRaise("AttributeError", "DataFrame has no attribute %s" % name)
        return Method(o, name)
    if isinstance(o, range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return Method(o, name)
    if isinstance(o, (Method, Bound, PartialV, Vectorized, CachedV)):
        return Opaque(name)
    return I.top("attribute %s of %s" % (name, type(o).__name__))


def transpose(I, o, axes=None):
    n = o.ndim
    if n < 2:
        return o
    if axes is None:
        axes = tuple(range(n))[::-1]
    sh = tuple(o.shape[a] for a in axes)
    strides = []
    st = 1
    for d in reversed(o.shape):
        strides.append(st)
        st *= d
    strides = strides[::-1]
    out = []

    def go(i, off):
        if i == n:
            out.append(o.idx[off])
            return
        for k in range(sh[i]):
            go(i + 1, off + k * strides[axes[i]])
    go(0, 0)
    return Arr(o.buf, tuple(out), sh, o.series)


def reshape(I, o, shape):
    shape = [toint(I, s) for s in (I.iterate(shape) if isinstance(shape, (tuple, Lst, list)) else [shape])]
    if any(s is None for s in shape):
        return I.top("reshape")
    if -1 in shape:
        rest = prod([s for s in shape if s != -1])
        if rest == 0 or o.size % rest:
            raise PyRaise("ValueError", "cannot reshape")
        shape[shape.index(-1)] = o.size // rest
    if prod(shape) != o.size:
        raise PyRaise("ValueError", "cannot reshape array of size %d into shape %s" % (o.size, tuple(shape)))
    return Arr(o.buf, o.idx, tuple(shape))


def fold(f):
    def g(es):
        r = es[0]
        for e in es[1:]:
            r = f(r, e)
        return r
    return g


SORTMAX = 160


def sorted_net(es):
    """sorting network (Batcher's merge exchange)"""
    es = list(es)
    n = len(es)
    if n < 2:
        return es
    t = (n - 1).bit_length()
    p = 1 << (t - 1)
    while p > 0:
        q, r, d = 1 << (t - 1), 0, p
        while d > 0:
            for i in range(n - d):
                if i & p == r:
                    a, b = es[i], es[i + d]
                    es[i], es[i + d] = ir.fn("min2", a, b), ir.fn("max2", a, b)
            d, q, r = q - p, q >> 1, p
        p >>= 1
    return es


def mean_(es):
    if not es:
        return ir.NAN
    return ir.div(nsum(es), C(len(es)))


def var_(es, ddof=0):
    m = mean_(es)
    return ir.div(nsum([ir.pow_(ir.sub(e, m), C(2)) for e in es]), C(len(es) - ddof))


def anyn(es):
    r = ir.FALSE
    for e in es:
        r = ir.or_(r, e if e.kind == "b" else ir.not_(ir.eq(e, C(0))))
    return r


def alln(es):
    r = ir.TRUE
    for e in es:
        r = ir.and_(r, e if e.kind == "b" else ir.not_(ir.eq(e, C(0))))
    return r


def nanfold(f, unit):
    def g(es):
        if unit is None:
            return f(es)
        return f([ir.sel(ir.isnan(e), unit, e) for e in es])
    return g


REDUCERS = {
    "sum": nsum, "mean": mean_, "prod": lambda es: fold(ir.mul)(es) if es else C(1),
    "max": lambda es: fold(lambda a, b: ir.fn("max2", a, b))(es),
    "min": lambda es: fold(lambda a, b: ir.fn("min2", a, b))(es),
    "amax": lambda es: fold(lambda a, b: ir.fn("max2", a, b))(es),
    "amin": lambda es: fold(lambda a, b: ir.fn("min2", a, b))(es),
    "any": anyn, "all": alln, "var": var_, "std": lambda es: ir.sqrt(var_(es)),
    "nansum": nanfold(nsum, C(Fraction(0))), "product": lambda es: fold(ir.mul)(es),
}


def boolres(v):
    if v is ir.TRUE:
        return True
    if v is ir.FALSE:
        return False
    return v


def call_method(I, o, name, args, kw):
    if isinstance(o, Opaque):
        return call_opaque(I, Opaque(o.what + "." + name), args, kw)
    if isinstance(o, (str,)):
        return str_method(I, o, name, args, kw)
    if isinstance(o, Lst):
        return list_method(I, o, name, args, kw)
    if isinstance(o, Dct):
        return dict_method(I, o, name, args, kw)
    if isinstance(o, SetV):
        if name == "add":
            I.heap[o.id] = I.heap[o.id] + (args[0],)
            return None
        return I.top("set.%s" % name)
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                if I.truth(I.compare(ast.Eq(), x, args[0])) is True:
                    return i
            return I.top("index")
        if name == "count":
            return I.top("count")
        raise PyRaise("AttributeError", name)
    if isinstance(o, (int, bool, float)):
        if name == "conjugate":
            return o
        if name == "is_integer":
            return True
        return I.top("int.%s" % name)
    if isinstance(o, DF):
        return df_method(I, o, name, args, kw)
    if isinstance(o, Masked):
        if name in ("astype", "copy", "conj", "flatten", "ravel", "squeeze"):
            return o
        if name in ("any", "all", "sum", "prod", "mean", "max", "min") and not args and not kw:
            return masked_reduce(I, o, name)
        if name == "item":
            return masked_pick(I, o, 0)
        return I.top("masked.%s" % name)
    if isinstance(o, Node):
        if name == "conjugate" or name == "conj":
            return ir.fn("conj", o)
        if name == "is_integer":
            return ir.eq(o, ir.fn("floor", o))
        if o.op == "top":
            return I.top("method of unknown")
        if name in ("item", "copy", "squeeze", "sum", "mean", "max", "min", "prod"):
            return o
        if name == "astype":
            d = dtype_name(I, args[0] if args else kw.get("dtype"))
            return I.cast(o, d) if d else I.topn("astype")
        if name in ("any", "all"):
            return o if o.kind == "b" else ir.not_(ir.eq(o, C(0)))
        if name in ("flatten", "ravel"):
            return I.newarr([o], (1,))
        if name == "reshape":
            return reshape(I, I.newarr([o], ()), args[0] if len(args) == 1 else tuple(args))
        if name == "tolist":
            return o
        if name == "clip":
            return call_native(I, "numpy.clip", [o] + args, kw)
        if name == "round":
            return call_native(I, "numpy.round", [o] + args, kw)
        return I.top("scalar.%s" % name)
    if isinstance(o, range):
        return I.top("range.%s" % name)
    if isinstance(o, Arr):
        return arr_method(I, o, name, args, kw)
    if isinstance(o, (Method, Bound, PartialV)):
        return I.top("method")
    return I.top("method %s of %s" % (name, type(o).__name__))


def arr_method(I, o, name, args, kw):
    if name in REDUCERS or name in ("cumsum", "cumprod", "argmax", "argmin", "argsort", "std", "var", "round",
                                    "clip", "repeat", "take", "trace", "diagonal", "dot", "nonzero", "searchsorted",
                                    "median", "swapaxes", "squeeze", "ptp"):
        if o.series and name in ("std", "var"):
            return I.top("series %s" % name)
        if o.series and name == "sum" or (o.series and name == "mean"):
            f = REDUCERS["nansum"] if name == "sum" else None
            if f:
                return f(I.elems(o))
        return call_native(I, "numpy." + name, [o] + list(args), kw)
    if name == "reshape":
        shape = args[0] if len(args) == 1 else tuple(args)
        return reshape(I, o, shape)
    if name == "flatten":
        return I.newarr(I.elems(o), (o.size,), I.rawdtype(o))
    if name == "ravel":
        return Arr(o.buf, o.idx, (o.size,))
    if name == "copy":
        r = I.newarr(I.elems(o), o.shape, I.rawdtype(o))
        r.series = o.series
        return r
    if name == "astype":
        d = dtype_name(I, args[0] if args else kw.get("dtype"))
        if d is None:
            return I.top("astype")
        if kw.get("copy") is False and d == I.dtype(o):
            return o
        r = I.newarr(I.elems(o), o.shape, d)
        r.series = o.series
        return r
    if name == "transpose":
        if args:
            ax = args if len(args) > 1 else I.iterate(args[0])
            return transpose(I, o, tuple(toint(I, a) % o.ndim for a in ax))
        return transpose(I, o)
    if name in ("tolist", "to_list"):
        def tl(a):
            if a.ndim == 0:
                return I.elems(a)[0]
            if a.ndim == 1:
                return Lst(I.alloc(tuple(I.elems(a))))
            return Lst(I.alloc(tuple(tl(getitem(I, a, i)) for i in range(a.shape[0]))))
        return tl(o)
    if name in ("conj", "conjugate"):
        return ew(I, lambda x: ir.fn("conj", x), o)
    if name == "abs":
        return ew(I, lambda x: ir.fn("abs", x), o)
    if name == "fill":
        I.write_buf(o, range(o.size), [I.N(args[0])] * o.size)
        return None
    if name == "sort":
        if o.ndim == 1 and o.size <= SORTMAX:
            I.write_buf(o, range(o.size), sorted_net(I.elems(o)))
        else:
            I.write_buf(o, range(o.size), [I.topn("sort") for _ in range(o.size)])
        return None
    if name == "put" and len(args) == 2 and not kw and put_like(I, o, name, *args):
        return None
    if name == "itemset" and len(args) == 2:
        setitem(I, Arr(o.buf, o.idx, (o.size,)) if isnum(args[0]) else o, args[0], args[1])
        return None
    if name in ("__setitem__", "__getitem__"):
        return (setitem if name == "__setitem__" else getitem)(I, o, *args)
    if name in ("partition", "resize", "put", "itemset", "update"):
        I.write_buf(o, range(o.size), [I.topn(name) for _ in range(o.size)])
        return None
    if name == "item":
        if args:
            return getitem(I, Arr(o.buf, o.idx, (o.size,)) if len(args) == 1 else o, args[0] if len(args) == 1 else tuple(args))
        if o.size != 1:
            raise PyRaise("ValueError", "can only convert an array of size 1 to a Python scalar")
        return I.elems(o)[0]
    if name in ("tobytes", "tostring"):
        return ("bytes",) + tuple(I.elems(o))
    if name == "to_numpy":
        return Arr(o.buf, o.idx, o.shape)
    if name == "view":
        return Arr(o.buf, o.idx, o.shape)
    if name in ("isnull", "isna"):
        return ew(I, ir.isnan, o)
    if name in ("notna", "notnull"):
        return ew(I, lambda x: ir.not_(ir.isnan(x)), o)
    if name == "fillna":
        v = I.N(args[0])
        return ew(I, lambda x: ir.sel(ir.isnan(x), v, x), o)
    if name == "where" and o.series:
        other = args[1] if len(args) > 1 else ir.NAN
        r = ew(I, lambda c, x, y: ir.sel(c, x, y), args[0], o, other)
        return r
    if name == "between":
        return ew(I, lambda x, a, b: ir.and_(ir.le(a, x), ir.le(x, b)), o, args[0], args[1])
    if name in ("apply", "map") and o.series:
        r = I.newarr([I.N(I.call(args[0], [e], {})) for e in I.elems(o)], o.shape)
        r.series = True
        return r
    if name == "__len__":
        return o.shape[0]
    if name == "setflags":
        return None
    if name == "rename":
        return o
    return I.top("array method %s" % name)


def str_method(I, o, name, args, kw):
    if name in ("lower", "upper", "strip", "title", "capitalize", "lstrip", "rstrip", "casefold", "swapcase") and all(isinstance(a, str) for a in args):
        return getattr(o, name)(*args)
    if name in ("startswith", "endswith", "replace", "split", "find", "count", "index", "isdigit", "isalpha") and all(isinstance(a, (str, int)) for a in args):
        r = getattr(o, name)(*args)
        return Lst(I.alloc(tuple(r))) if isinstance(r, list) else r
    if name == "join":
        it = I.iterate(args[0])
        if it is not None and all(isinstance(x, str) for x in it):
            return o.join(it)
        return Opaque("string")
    if name == "format":
        vals = [pynum(I, a) for a in args]
        if all(type(v) in (int, str, float) for v in vals) and not kw:
            try:
                return o.format(*vals)
            except (TypeError, ValueError, IndexError, KeyError):
                return Opaque("string")
        ts = [numstr(I, a) for a in args]
        if all(isinstance(t, str) for t in ts) and not kw and not any(c in o.replace("{}", "") for c in "{}"):
            try:
                return o.format(*ts)
            except IndexError:
                return Opaque("string")
        return Opaque("string")
    if hasattr(str, name):
        return Opaque("string")
    raise PyRaise("AttributeError", "str.%s" % name)


def list_method(I, o, name, args, kw):
    seq = I.heap[o.id]
    if name == "append":
        I.heap[o.id] = seq + (args[0],)
        return None
    if name == "extend":
        it = I.iterate(args[0])
        I.heap[o.id] = seq + (tuple(it) if it is not None else (I.top("extend"),))
        return None
    if name == "insert":
        i = toint(I, args[0])
        l = list(seq)
        l.insert(i if i is not None else 0, args[1])
        I.heap[o.id] = tuple(l)
        return None
    if name == "pop":
        i = toint(I, args[0]) if args else -1
        l = list(seq)
        if not l:
            raise PyRaise("IndexError", "pop from empty list")
        v = l.pop(i)
        I.heap[o.id] = tuple(l)
        return v
    if name == "copy":
        return Lst(I.alloc(seq))
    if name == "clear":
        I.heap[o.id] = ()
        return None
    if name == "reverse":
        I.heap[o.id] = seq[::-1]
        return None
    if name == "index":
        for i, x in enumerate(seq):
            if I.truth(I.compare(ast.Eq(), x, args[0])) is True:
                return i
        return I.top("list.index")
    if name == "sort":
        if all(isnum(x) for x in seq) and not kw and len(seq) <= SORTMAX:
            I.heap[o.id] = tuple(sorted_net([I.N(x) for x in seq]))
        else:
            I.heap[o.id] = tuple(I.top("sort") for _ in seq)
        return None
    if name in ("remove",):
        I.heap[o.id] = tuple(I.top("remove") for _ in seq[1:])
        return None
    if name == "count":
        return I.top("count")
    if name in ("__len__",):
        return len(seq)
    raise PyRaise("AttributeError", "'list' object has no attribute '%s'" % name)


def dict_method(I, o, name, args, kw):
    d = I.heap[o.id]
    if name == "get":
        k = I.hkey(args[0])
        if k in d:
            return getitem(I, o, args[0])
        dflt = args[1] if len(args) > 1 else None
        res = dflt
        for k2, v in reversed(list(d.items())):
            t = I.truth(I.compare(ast.Eq(), I.unkey(k2), args[0]))
            if t is True:
                return v
            if t is not False:
                res = I.merge(t, v, res)
        return res
    if name == "items":
        return Lst(I.alloc(tuple((I.unkey(k), v) for k, v in d.items())))
    if name == "keys":
        return Lst(I.alloc(tuple(I.unkey(k) for k in d)))
    if name == "values":
        return Lst(I.alloc(tuple(d.values())))
    if name == "update":
        n = dict(d)
        for a in args:
            if isinstance(a, Dct):
                n.update(I.heap[a.id])
            else:
                I.top("dict.update")
        n.update(kw)
        I.heap[o.id] = n
        return None
    if name == "setdefault":
        k = I.hkey(args[0])
        if k in d:
            return d[k]
        n = dict(d)
        n[k] = args[1] if len(args) > 1 else None
        I.heap[o.id] = n
        return n[k]
    if name == "pop":
        k = I.hkey(args[0])
        n = dict(d)
        if k in n:
            v = n.pop(k)
            I.heap[o.id] = n
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise("KeyError", str(k))
    if name == "copy":
        return Dct(I.alloc(dict(d)))
    if name == "clear":
        I.heap[o.id] = {}
        return None
    return I.top("dict.%s" % name)


def df_method(I, o, name, args, kw):
    h = I.heap[o.id]
    if h["n"] is None and name not in ("insert", "keys", "get"):
        return I.top("DataFrame.%s of an unknown table" % name)
    if name in ("copy", "reset_index"):
        cols = {n: I.newarr(I.elems(a), a.shape, I.rawdtype(a)) for n, a in h["cols"].items()}
        if name == "copy":
            return DF(I.alloc({"cols": cols, "n": h["n"]}))
    if name == "to_numpy":
        return asarr(I, o)
    if name == "drop":
        names = kw.get("columns", args[0] if args else None)
        it = [names] if isinstance(names, str) else (I.iterate(names) if names is not None else None)
        if it is None or not all(isinstance(x, str) for x in it):
            return I.top("DataFrame.drop")
        for x in it:
            if x not in h["cols"]:
                raise PyRaise("KeyError", x)
        if kw.get("inplace") is True:
            I.heap[o.id] = {"cols": {n: a for n, a in h["cols"].items() if n not in it}, "n": h["n"]}
            return None
        cols = {n: I.newarr(I.elems(a), a.shape, I.rawdtype(a)) for n, a in h["cols"].items() if n not in it}
        return DF(I.alloc({"cols": cols, "n": h["n"]}))
    if name == "insert":
        i = toint(I, args[0])
        df_setcol(I, o, args[1], args[2])
        return None
    if name == "assign":
        r = df_method(I, o, "copy", [], {})
        for k, v in kw.items():
            df_setcol(I, r, k, I.call(v, [r], {}) if isinstance(v, (Func, Bound)) else v)
        return r
    if name == "keys":
        return Lst(I.alloc(tuple(h["cols"])))
    if name == "get":
        return df_getitem(I, o, args[0]) if args[0] in h["cols"] else (args[1] if len(args) > 1 else None)
    if name == "pop":
        v = df_getitem(I, o, args[0])
        I.heap[o.id] = {"cols": {n: a for n, a in h["cols"].items() if n != args[0]}, "n": h["n"]}
        return v
    if name in ("itertuples", "iterrows"):
        return I.top("DataFrame.%s" % name)
    return I.top("DataFrame.%s" % name)


def _snap(I, v):
    """the data as they are at the time of the call"""
    v = I.flat(v)
    if isinstance(v, Arr):
        return I.newarr(I.elems(v), v.shape, I.rawdtype(v))
    if isinstance(v, Lst):
        return Lst(I.alloc(tuple(_snap(I, x) for x in I.heap[v.id])))
    return v


def call_opaque(I, f, args, kw):
    # plotting objects and the like: the call has no numeric result
    I.opaque_calls = getattr(I, "opaque_calls", [])
    I.opaque_calls.append((f.what, [_snap(I, a) for a in args], {k: _snap(I, v) for k, v in kw.items()}, I.loc))
    return Opaque(f.what + "()")


# ------------------------------------------------------------------ natives
def surely_complex(n):
    if n.kind != "c":
        return False
    if n.op == "sel":
        return surely_complex(n.args[1]) and surely_complex(n.args[2])
    return True


def real_only(x, what):
    if surely_complex(x):
        raise PyRaise("TypeError", "no %s of a complex number" % what)
    return x


U1 = {
    "sqrt": ir.sqrt, "square": lambda x: ir.pow_(x, C(2)), "cbrt": lambda x: ir.mul(ir.fn("sign", x), ir.pow_(ir.fn("abs", x), C(Fraction(1, 3)))),
    "negative": ir.neg, "positive": lambda x: x, "reciprocal": lambda x: ir.div(C(1), x),
    "abs": lambda x: ir.fn("abs", x), "absolute": lambda x: ir.fn("abs", x), "fabs": lambda x: ir.fn("abs", x),
    "deg2rad": lambda x: ir.mul(x, ir.div(ir.PI, C(180))), "radians": lambda x: ir.mul(x, ir.div(ir.PI, C(180))),
    "rad2deg": lambda x: ir.mul(x, ir.div(C(180), ir.PI)), "degrees": lambda x: ir.mul(x, ir.div(C(180), ir.PI)),
    "log10": lambda x: ir.div(ir.fn("log", x), ir.fn("log", C(Fraction(10)))),
    "log2": lambda x: ir.div(ir.fn("log", x), ir.fn("log", C(Fraction(2)))),
    "log1p": lambda x: ir.fn("log", ir.add(C(1), x)), "expm1": lambda x: ir.sub(ir.fn("exp", x), C(1)),
    "exp2": lambda x: ir.pow_(C(2, "f"), x),
    "sign": lambda x: ir.fn("sign", x), "isnan": ir.isnan,
    "isfinite": lambda x: ir.mk("isfin", (x,)) if x.op not in ("const", "sym", "pi") else ir.TRUE,
    "isinf": lambda x: ir.and_(ir.not_(ir.mk("isfin", (x,))), ir.not_(ir.isnan(x))) if x.op not in ("const", "sym", "pi") else ir.FALSE,
    "conj": lambda x: ir.fn("conj", x), "conjugate": lambda x: ir.fn("conj", x),
    "real": lambda x: ir.fn("real", x), "imag": lambda x: ir.fn("imag", x),
    "angle": lambda x: ir.fn("arg", x), "logical_not": lambda x: ir.not_(x if x.kind == "b" else ir.ne(x, C(0))),
    "sinc": lambda x: ir.div(ir.fn("sin", ir.mul(ir.PI, x)), ir.mul(ir.PI, x)),
    "arccosh": lambda x: ir.fn("log", ir.add(x, ir.sqrt(ir.sub(ir.mul(x, x), C(1))))),
    "arcsinh": lambda x: ir.fn("log", ir.add(x, ir.sqrt(ir.add(ir.mul(x, x), C(1))))),
    "arctanh": lambda x: ir.mul(C(Fraction(1, 2)), ir.fn("log", ir.div(ir.add(C(1), x), ir.sub(C(1), x)))),
    "cosh": lambda x: ir.mul(C(Fraction(1, 2)), ir.add(ir.fn("exp", x), ir.fn("exp", ir.neg(x)))),
    "sinh": lambda x: ir.mul(C(Fraction(1, 2)), ir.sub(ir.fn("exp", x), ir.fn("exp", ir.neg(x)))),
    "tanh": lambda x: ir.div(ir.sub(ir.fn("exp", ir.mul(C(2), x)), C(1)), ir.add(ir.fn("exp", ir.mul(C(2), x)), C(1))),
    "fix": lambda x: ir.tofloat(ir.fn("trunc", x)), "signbit": lambda x: ir.lt(x, C(0)),
}
for _n in ("exp", "log", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "rint"):
    U1[_n] = (lambda n: lambda x: ir.fn(n, x))(_n)
for _n in ("floor", "ceil", "trunc"):
    U1[_n] = (lambda n: lambda x: ir.fn(n, real_only(x, n)))(_n)
for _a, _b in (("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan"), ("acosh", "arccosh"), ("asinh", "arcsinh"), ("atanh", "arctanh")):
    U1[_a] = U1[_b]
U1["around"] = U1["rint"]


def _fmod(a, b):
    return ir.sub(a, ir.mul(b, ir.tofloat(ir.fn("trunc", ir.div(a, b)))))


def _bool(x):
    return x if x.kind == "b" else ir.ne(x, C(0))


U2 = {
    "add": ir.add, "subtract": ir.sub, "multiply": ir.mul, "divide": ir.div, "true_divide": ir.div,
    "power": ir.pow_, "float_power": ir.pow_, "pow": ir.pow_,
    "maximum": lambda a, b: ir.fn("max2", a, b), "minimum": lambda a, b: ir.fn("min2", a, b),
    "fmax": lambda a, b: ir.fn("max2", a, b), "fmin": lambda a, b: ir.fn("min2", a, b),
    "hypot": lambda a, b: ir.sqrt(ir.add(ir.pow_(a, C(2)), ir.pow_(b, C(2)))),
    "arctan2": lambda a, b: ir.fn("arctan2", a, b), "atan2": lambda a, b: ir.fn("arctan2", a, b),
    "less": ir.lt, "less_equal": ir.le, "greater": lambda a, b: ir.lt(b, a), "greater_equal": lambda a, b: ir.le(b, a),
    "equal": ir.eq, "not_equal": ir.ne,
    "logical_and": lambda a, b: ir.and_(_bool(a), _bool(b)), "logical_or": lambda a, b: ir.or_(_bool(a), _bool(b)),
    "logical_xor": lambda a, b: ir.or_(ir.and_(_bool(a), ir.not_(_bool(b))), ir.and_(ir.not_(_bool(a)), _bool(b))),
    "bitwise_and": lambda a, b: ir.and_(_bool(a), _bool(b)), "bitwise_or": lambda a, b: ir.or_(_bool(a), _bool(b)),
    "floor_divide": lambda a, b: ir.fn("floor", ir.div(real_only(a, "floor"), real_only(b, "floor"))),
    "mod": lambda a, b: ir.sub(a, ir.mul(b, ir.fn("floor", ir.div(a, b)))),
    "remainder": lambda a, b: ir.sub(a, ir.mul(b, ir.fn("floor", ir.div(a, b)))),
    "fmod": _fmod, "heaviside": lambda a, b: ir.sel(ir.lt(a, C(0)), C(Fraction(0)), ir.sel(ir.eq(a, C(0)), b, C(Fraction(1)))),
    "copysign": lambda a, b: ir.mul(ir.fn("abs", a), ir.sel(ir.lt(b, C(0)), C(Fraction(-1)), C(Fraction(1)))),
    "divmod": None,
}
del U2["divmod"]

CONSTS = {"numpy.pi": ir.PI, "math.pi": ir.PI, "numpy.e": ir.EULER, "math.e": ir.EULER, "numpy.inf": ir.INF,
          "math.inf": ir.INF, "numpy.nan": ir.NAN, "math.nan": ir.NAN, "numpy.newaxis": None, "numpy.NaN": ir.NAN,
          "numpy.Inf": ir.INF, "scipy.pi": ir.PI, "scipy.constants.pi": ir.PI, "numpy.NAN": ir.NAN, "cmath.pi": ir.PI,
          "scipy.constants.R": C(8.314462618), "scipy.constants.g": C(9.80665), "numpy.euler_gamma": C(0.5772156649015329)}

PLOTLIBS = ("matplotlib", "mpl_toolkits", "seaborn", "plotly", "pylab")


def native_attr(I, o, name):
    full = o.name + "." + name
    if full in CONSTS:
        return CONSTS[full]
    if full == "numpy.finfo":
        return Native(full)
    if o.name.startswith("exc."):
        return Opaque(full)
    return Native(full)


def ambient(I, name):
    """reading the environment of the process"""
    if name.startswith(("os.environ", "sys.argv", "sys.flags", "sys.modules", "sys.path")):
        I.effect("nondet", "read of %s" % name)


NONDET = ("random", "time", "datetime", "secrets", "uuid", "os.urandom", "os.getpid", "os.environ")


def call_native(I, name, args, kw):
    if name.startswith("spec."):
        return I.spec_hook(name[5:], args, kw)
    I.native_calls = getattr(I, "native_calls", {})
    I.native_calls[name] = I.native_calls.get(name, 0) + 1
    parts = name.split(".")
    root, last = parts[0], parts[-1]
    if root == "exc":
        return Opaque(last)
    # non-determinism and ambient state
    if root in ("random", "secrets", "uuid") or name.startswith("numpy.random") or name.startswith("scipy.stats") and last == "rvs":
        I.effect("nondet", "call of %s" % name)
        return nondet(I, args, kw)
    if root in ("time", "datetime") or name in ("os.urandom", "os.getpid", "os.times", "os.getenv"):
        if last in ("sleep",):
            return None
        I.effect("nondet", "call of %s" % name)
        return nondet(I, args, kw)
    if name in ("numpy.geterr", "numpy.get_printoptions", "locale.getlocale", "locale.localeconv", "os.getcwd", "threading.get_ident",
                "threading.current_thread", "gc.get_count", "tracemalloc.get_traced_memory", "platform.node"):
        I.effect("nondet", "call of %s" % name)
        return I.top(name)
    if name in ("numpy.seterr", "numpy.set_printoptions", "numpy.seterrcall", "os.chdir", "os.putenv", "os.umask",
                "sys.setrecursionlimit", "warnings.filterwarnings", "warnings.simplefilter", "locale.setlocale",
                "warnings.resetwarnings", "matplotlib.pyplot.rc", "matplotlib.rc", "matplotlib.pyplot.style.use",
                "matplotlib.use", "gc.disable", "pandas.set_option", "decimal.setcontext", "mpmath.mp.dps"):
        I.effect("state", "call of %s" % name)
        return None
    if root in PLOTLIBS:
        return call_opaque(I, Opaque(name), args, kw)
    if root == "warnings":
        return None if last == "warn" else Opaque(name)
    if root == "os" or root == "sys" or root == "pathlib" or root == "io" or root == "json" or root == "pickle":
        if name.startswith("os.path") and last not in ("exists", "isfile", "isdir", "getmtime", "getsize", "expanduser", "expandvars",
                                                       "abspath", "realpath", "lexists"):
            return Opaque(name)
        I.effect("io", "call of %s" % name)
        return Opaque(name)
    if root in ("logging",):
        return Opaque(name)
    if root == "builtins":
        return builtin_call(I, last, args, kw)
    if root == "functools":
        if last == "partial":
            return PartialV(args[0], list(args[1:]), dict(kw))
        if last == "reduce":
            it = I.iterate(args[1])
            if it is None:
                return I.top("reduce")
            it = list(it)
            acc = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                acc = I.call(args[0], [acc, x], {})
            return acc
        if last in ("lru_cache", "cache", "wraps", "update_wrapper"):
            if args and isinstance(args[0], (Func,)) and last != "wraps" and last != "update_wrapper":
                return CachedV(args[0])
            return Native("functools." + last)
        return I.top(name)
    if root == "itertools":
        if last == "product":
            its = [I.iterate(a) for a in args]
            if any(x is None for x in its):
                return I.top(name)
            import itertools
            r = toint(I, kw.get("repeat", 1)) or 1
            return Lst(I.alloc(tuple(tuple(t) for t in itertools.product(*its, repeat=r))))
        if last == "chain":
            out = []
            for a in args:
                it = I.iterate(a)
                if it is None:
                    return I.top(name)
                out += it
            return Lst(I.alloc(tuple(out)))
        if last in ("combinations", "permutations", "combinations_with_replacement"):
            import itertools
            it = I.iterate(args[0])
            r = toint(I, args[1]) if len(args) > 1 else None
            if it is None:
                return I.top(name)
            return Lst(I.alloc(tuple(tuple(t) for t in getattr(itertools, last)(it, *( [r] if r is not None else [])))))
        return I.top(name)
    if root == "operator":
        m = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "pow": ast.Pow, "mod": ast.Mod}
        if last in m:
            return I.binop(m[last](), args[0], args[1])
        if last == "neg":
            return I.unop(ast.USub(), args[0])
        if last == "itemgetter":
            return I.top(name)
        return I.top(name)
    if root == "copy":
        if last in ("copy", "deepcopy"):
            return deepcopy(I, args[0], last == "deepcopy")
    if root == "math" or root == "cmath":
        return math_call(I, last, args, kw, root)
    if root == "numpy":
        return numpy_call(I, name, last, args, kw)
    if root == "scipy":
        return scipy_call(I, name, last, args, kw)
    if root == "pandas":
        if last == "DataFrame":
            return mk_df(I, args, kw)
        if last == "Series":
            if not args and "data" not in kw:
                return I.top("Series")
            a = asarr(I, args[0] if args else kw["data"])
            if isinstance(a, Arr):
                return Arr(a.buf, a.idx, a.shape, True)
            return a
        if last in ("isnull", "isna"):
            return ew(I, ir.isnan, args[0])
        if last in ("notnull", "notna"):
            return ew(I, lambda x: ir.not_(ir.isnan(x)), args[0])
        return I.top(name)
    if root == "kde_diffusion":
        call_opaque(I, Opaque(name), args, kw)
        return kde2d(I, args, kw)
    if root in ("typing", "abc", "dataclasses", "enum", "collections"):
        if last == "OrderedDict" and not args:
            return Dct(I.alloc({}))
        if last == "namedtuple":
            return I.top("namedtuple")
        if last == "defaultdict":
            return I.top("defaultdict")
        return Opaque(name)
    return I.top("call of %s" % name)


KDE = {}


def kde2d(I, args, kw):
    """the estimator as an unknown function of its arguments (small grids only: density n x n, two grid axes, two bandwidths)"""
    sig = ("x", "y", "n", "limits")
    a = dict(zip(sig, args))
    a.update(kw)
    n = toint(I, a["n"]) if "n" in a else None
    lim = a.get("limits")
    x, y = (asarr(I, a.get(k)) if k in a else None for k in "xy")
    if n not in (1, 2, 4, 8) or set(a) - set(sig) or lim is not None or not isinstance(x, Arr) or not isinstance(y, Arr):
        return (Opaque("kde"), Opaque("kde"), Opaque("kde"))
    key = (n, tuple(e.id for e in I.elems(x)), tuple(e.id for e in I.elems(y)))
    k = KDE.setdefault(key, len(KDE))
    new = lambda s, j: ir.sym("$k%d%s%d" % (k, s, j))
    return (I.newarr([new("d", j) for j in range(n * n)], (n, n), "f"),
            (I.newarr([new("x", j) for j in range(n)], (n,), "f"), I.newarr([new("y", j) for j in range(n)], (n,), "f")),
            I.newarr([new("b", 0), new("b", 1)], (2,), "f"))


def kde_point():
    """distinct values for the unknown results; densities include one that is negligible"""
    out = {}
    for (n, _, _), k in KDE.items():
        for s, c in (("d", n * n), ("x", n), ("y", n), ("b", 2)):
            for j in range(c):
                out["$k%d%s%d" % (k, s, j)] = 1.3 + 0.71 * ((j * 7 + 3 * k) % 13) + (0.37 if s == "x" else 0) if s != "d" or j not in (6, 11) else (3.1e-4 if j == 6 else 1.9e-3)
    return out


def dunder(I, v, name):
    """does the value have this special method; None when not known here"""
    if isinstance(v, Arr):
        if v.series:
            return name in ARRD or None
        return name in ARRD
    if isinstance(v, (bool, int, str, tuple)):
        return hasattr(v, name)
    if isinstance(v, Lst):
        return hasattr([], name)
    if isinstance(v, Dct):
        return hasattr({}, name)
    if isinstance(v, Node) and v.op in ("sym", "const") and v.kind in "if":
        return hasattr(1 if v.kind == "i" else 1.0, name)
    return None


ARRD = set("""__add__ __radd__ __iadd__ __sub__ __rsub__ __isub__ __mul__ __rmul__ __imul__ __truediv__ __rtruediv__ __itruediv__
__floordiv__ __rfloordiv__ __ifloordiv__ __mod__ __rmod__ __imod__ __pow__ __rpow__ __ipow__ __matmul__ __rmatmul__ __imatmul__
__and__ __or__ __xor__ __iand__ __ior__ __ixor__ __neg__ __pos__ __abs__ __invert__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__
__len__ __iter__ __getitem__ __setitem__ __delitem__ __contains__ __array__ __array_ufunc__ __array_function__ __array_interface__
__array_struct__ __array_priority__ __array_wrap__ __array_finalize__ __array_prepare__ __copy__ __deepcopy__ __complex__ __float__ __int__ __index__ __bool__
__class__ __dir__ __doc__ __format__ __reduce__ __reduce_ex__ __repr__ __str__ __sizeof__ __setattr__ __getattribute__ __init__
__new__ __hash__ __dlpack__ __divmod__ __rdivmod__ __lshift__ __rshift__""".split())


def nondet(I, args, kw):
    I.nondet += 1
    return ir.mk("atom", (), ("nondet", I.nondet))


def deepcopy(I, v, deep=True):
    if isinstance(v, Arr):
        r = I.newarr(I.elems(v), v.shape, I.rawdtype(v))
        r.series = v.series
        return r
    if isinstance(v, Lst):
        return Lst(I.alloc(tuple(deepcopy(I, x) if deep else x for x in I.heap[v.id])))
    if isinstance(v, Dct):
        return Dct(I.alloc({k: (deepcopy(I, x) if deep else x) for k, x in I.heap[v.id].items()}))
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x) if deep else x for x in v)
    if isinstance(v, DF):
        return df_method(I, v, "copy", [], {})
    if isinstance(v, Phi):
        return I.lift1(lambda x: deepcopy(I, x, deep), v)
    if isinstance(v, Inst):
        return Inst(I.alloc({k: (deepcopy(I, x) if deep else x) for k, x in I.heap[v.id].items()}), v.cls)
    return v


def builtin_call(I, n, args, kw):
    if n == "range":
        a = [toint(I, x) for x in args]
        if any(x is None for x in a):
            for x in args:
                if isinstance(x, Node) and (x.op == "const" or (x.op == "sym" and x.kind == "f")):
                    raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
                if isinstance(x, (Arr, Lst, tuple, str)) or x is None:
                    raise PyRaise("TypeError", "range argument")
            return I.top("range of symbolic bound")
        for x in args:
            if isinstance(x, Node) and x.op == "const" and x.kind == "f":
                raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
        return range(*a)
    if n == "len":
        v = args[0]
        if isinstance(v, Phi):
            v = I.flat(v)
        if isinstance(v, Phi):
            return I.lift1(lambda x: builtin_call(I, "len", [x], {}), v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise("TypeError", "len() of unsized object")
            return v.shape[0]
        if isinstance(v, (Lst, Dct, SetV)):
            return len(I.heap[v.id])
        if isinstance(v, (tuple, str, range)):
            return len(v)
        if isinstance(v, DF):
            return I.top("len of an unknown table") if I.heap[v.id]["n"] is None else I.heap[v.id]["n"]
        if isinstance(v, Masked):
            return value_attr(I, v, "size")
        if isnum(v) or v is None:
            if isinstance(v, Node) and v.op == "top":
                return I.top("len")
            raise PyRaise("TypeError", "object of type float has no len()")
        return I.top("len")
    if n == "zip":
        its = [I.iterate(a) for a in args]
        if any(x is None for x in its):
            return I.top("zip")
        if kw.get("strict") is True and len({len(x) for x in its}) > 1:
            raise PyRaise("ValueError", "zip lengths")
        return Lst(I.alloc(tuple(zip(*its))))
    if n == "enumerate":
        it = I.iterate(args[0])
        if it is None:
            return I.top("enumerate")
        st = toint(I, args[1] if len(args) > 1 else kw.get("start", 0))
        return Lst(I.alloc(tuple((i + st, x) for i, x in enumerate(it))))
    if n == "map":
        its = [I.iterate(a) for a in args[1:]]
        if any(x is None for x in its):
            return I.top("map")
        return Lst(I.alloc(tuple(I.call(args[0], list(t), {}) for t in zip(*its))))
    if n == "filter":
        it = I.iterate(args[1])
        if it is None:
            return I.top("filter")
        out = []
        for x in it:
            t = I.truth(I.call(args[0], [x], {})) if args[0] is not None else I.truth(x)
            if t is True:
                out.append(x)
            elif t is not False:
                return I.top("filter")
        return Lst(I.alloc(tuple(out)))
    if n == "sum":
        it = I.iterate(args[0])
        if it is None:
            return I.top("sum")
        r = args[1] if len(args) > 1 else kw.get("start", 0)
        for x in it:
            r = I.binop(ast.Add(), r, x)
        return r
    if n in ("min", "max"):
        it = I.iterate(args[0]) if len(args) == 1 else list(args)
        if it is None or kw.get("key") is not None:
            return I.top(n)
        if not it:
            raise PyRaise("ValueError", "%s() of empty sequence" % n)
        if all(isinstance(x, (int, bool)) for x in it):
            return (min if n == "min" else max)(it)
        for x in it:
            if isinstance(x, Arr) and x.size > 1:
                raise PyRaise("ValueError", "truth value of an array is ambiguous")
        return fold(lambda a, b: ir.fn(n + "2", a, b))([I.N(x) for x in it])
    if n == "abs":
        if isinstance(args[0], int):
            return abs(args[0])
        return ew(I, U1["abs"], args[0])
    if n == "float":
        v = args[0] if args else 0
        if isinstance(v, Phi):
            v = I.flat(v)
        if isinstance(v, str):
            try:
                return C(float(v))
            except ValueError:
                raise PyRaise("ValueError", "could not convert string")
        if isinstance(v, Arr):
            if v.ndim > 0:
                raise PyRaise("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
            return ir.tofloat(I.elems(v)[0])
        if isinstance(v, Masked):
            return masked_pick(I, v, 0)
        if isinstance(v, (Lst, tuple)):
            raise PyRaise("TypeError", "float() argument")
        x = I.N(v)
        return ir.tofloat(ir.asnum(x))
    if n == "int":
        v = args[0] if args else 0
        if isinstance(v, (int, bool)):
            return int(v)
        if isinstance(v, str):
            return int(v) if v.lstrip("-").isdigit() else I.top("int(str)")
        if isinstance(v, Arr) and v.ndim > 0:
            raise PyRaise("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
        r = ir.fn("trunc", I.N(v))
        i = toint(I, r)
        return r if i is None else i
    if n == "complex":
        if len(args) == 2:
            return ir.add(I.N(args[0]), ir.mul(ir.I, I.N(args[1])))
        return I.N(args[0])
    if n == "bool":
        if not args:
            return False
        return boolres(I.truth(args[0]))
    if n == "str" or n == "repr" or n == "format":
        return numstr(I, args[0]) if len(args) == 1 else fmtstr(I, args[1], args[0]) if n == "format" and len(args) == 2 else Opaque("string")
    if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
        if not args:
            return Lst(I.alloc(())) if n == "list" else () if n == "tuple" else SetV(I.alloc(()))
        it = I.iterate(args[0])
        if it is None:
            return I.top(n)
        if n == "tuple":
            return tuple(it)
        if n in ("set", "frozenset"):
            return SetV(I.alloc(tuple(it)))
        if n == "reversed":
            it = it[::-1]
        if n == "sorted":
            if kw.get("key") is not None:
                return I.top("sorted key")
            if all(isinstance(x, (int, str)) for x in it) and it:
                it = sorted(it, reverse=kw.get("reverse") is True)
            elif all(isnum(x) for x in it) and len(it) <= SORTMAX:
                it = sorted_net([I.N(x) for x in it])
                if kw.get("reverse") is True:
                    it = it[::-1]
            else:
                return I.top("sorted")
        return Lst(I.alloc(tuple(it)))
    if n == "next":
        it = I.iterate(args[0])
        if it:
            return it[0]
        return args[1] if len(args) > 1 else I.top("next")
    if n == "dict":
        d = {}
        for a in args:
            if isinstance(a, Dct):
                d.update(I.heap[a.id])
            else:
                it = I.iterate(a)
                if it is None:
                    return I.top("dict")
                for p in it:
                    k, v = I.iterate(p)
                    d[I.hkey(k)] = v
        d.update(kw)
        return Dct(I.alloc(d))
    if n == "isinstance":
        return isinst(I, args[0], args[1])
    if n == "issubclass":
        return I.top("issubclass")
    if n == "print":
        return None
    if n == "round":
        v = args[0]
        if isinstance(v, int):
            return v
        nd = toint(I, args[1]) if len(args) > 1 and args[1] is not None else None
        if nd is None:
            return ir.fn("trunc", ir.fn("rint", I.N(v))) if len(args) < 2 else I.topn("round")
        s = C(Fraction(10) ** nd)
        return ir.div(ir.fn("rint", ir.mul(I.N(v), s)), s)
    if n == "pow":
        return I.binop(ast.Pow(), args[0], args[1])
    if n == "divmod":
        return (I.binop(ast.FloorDiv(), *args), I.binop(ast.Mod(), *args))
    if n in ("any", "all"):
        it = I.iterate(args[0])
        if it is None:
            return I.top(n)
        r = ir.FALSE if n == "any" else ir.TRUE
        for x in it:
            t = I.truth(x)
            t = C(t) if isinstance(t, bool) else t
            r = ir.or_(r, t) if n == "any" else ir.and_(r, t)
        return boolres(r)
    if n == "type":
        v = args[0]
        if isinstance(v, Inst):
            return v.cls
        return typename(I, v)
    if n == "getattr":
        if isinstance(args[1], str):
            try:
                return I.getattr(args[0], args[1])
            except PyRaise:
                if len(args) > 2:
                    return args[2]
                raise
        return I.top("getattr")
    if n == "setattr":
        if isinstance(args[1], str):
            I.setattr(args[0], args[1], args[2])
            return None
        return I.top("setattr")
    if n == "hasattr":
        if isinstance(args[1], str) and args[1].startswith("__"):
            r = dunder(I, args[0], args[1])
            if r is not None:
                return r
        try:
            r = I.getattr(args[0], args[1])
            if isinstance(args[0], (Top,)):
                return I.top("hasattr")
            if isinstance(args[0], (Lst, tuple)) and args[1] in ("__len__", "__iter__", "__getitem__"):
                return True
            if isinstance(args[0], (Lst, tuple)):
                return args[1] in ("append", "index", "count") and not (isinstance(args[0], tuple) and args[1] == "append")
            if isinstance(args[0], Arr) and args[1] in ("__len__", "__iter__"):
                return args[0].ndim > 0 or True
            return True
        except PyRaise:
            if isinstance(args[0], Arr) and args[1] in ("__len__", "__iter__", "__getitem__", "__array__"):
                return True
            return False
    if n == "callable":
        return isinstance(args[0], (Func, Bound, ClassV, Native, Method, PartialV))
    if n == "slice":
        a = list(args)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    if n == "super":
        return SuperV(args[0], args[1]) if len(args) == 2 else I.top("super")
    if n in ("open", "input", "exec", "eval", "__import__"):
        I.effect("io", "call of %s" % n)
        return I.top(n)
    if n == "id" or n == "hash":
        I.effect("nondet", "call of %s" % n) if n == "id" else None
        return nondet(I, args, kw) if n == "id" else I.top("hash")
    if n == "object":
        return Opaque("object")
    if n == "vars" and len(args) == 1 and isinstance(args[0], Inst):
        return I.getattr(args[0], "__dict__")
    if n == "globals" and not any(v is UNDEF for v in I.heap[I.frames[-1].module.env].values()):
        return Dct(I.frames[-1].module.env)
    if n in ("globals", "locals", "vars"):
        return I.top(n)
    if n in ("staticmethod", "classmethod", "property"):
        return I.decorate(Native("builtins." + n), args[0])
    return I.top("builtin %s" % n)


def typename(I, v):
    if isinstance(v, Arr):
        return Native("numpy.ndarray") if not v.series else Native("pandas.Series")
    if isinstance(v, bool):
        return Native("builtins.bool")
    if isinstance(v, int):
        return Native("builtins.int")
    if isinstance(v, Node):
        return Native("builtins.float") if v.op in ("sym", "const") and v.kind == "f" else \
            Native("builtins.int") if v.kind == "i" else Native("numpy.float64")
    if isinstance(v, str):
        return Native("builtins.str")
    if isinstance(v, Lst):
        return Native("builtins.list")
    if isinstance(v, tuple):
        return Native("builtins.tuple")
    if isinstance(v, Dct):
        return Native("builtins.dict")
    if isinstance(v, DF):
        return Native("pandas.DataFrame")
    if v is None:
        return Native("builtins.NoneType")
    return I.top("type")


def isinst(I, v, t):
    if isinstance(v, Phi):
        return I.lift1(lambda x: isinst(I, x, t), v)
    if isinstance(t, tuple):
        r = False
        for x in t:
            y = isinst(I, v, x)
            if y is True:
                return True
            if y is not False:
                r = y
        return r
    if isinstance(t, ClassV):
        if isinstance(v, Inst):
            def sub(c):
                return c is t or any(sub(b) for b in c.bases)
            return sub(v.cls)
        return False
    if not isinstance(t, Native):
        return I.top("isinstance")
    if isinstance(v, (Top, Opaque)):
        return I.top("isinstance")
    n = t.name.split(".")[-1]
    if isinstance(v, Masked) or isinstance(v, Arr):
        if isinstance(v, Arr) and v.series:
            return n == "Series"
        return n in ("ndarray", "Iterable", "Sized")
    if isinstance(v, bool):
        return n in ("bool", "int", "Number", "Real", "Integral", "object")
    if isinstance(v, int):
        return n in ("int", "Number", "Real", "Integral", "integer")
    if isinstance(v, Node):
        if v.op == "top":
            return I.top("isinstance")
        if v.kind == "b":
            return n in ("bool", "bool_", "int")
        if v.kind == "c":
            return n in ("complex", "Number", "complexfloating", "complex128", "Complex")
        if v.kind == "i":
            return n in ("int", "Number", "Real", "Integral", "integer", "int64")
        if n in ("floating", "float64", "generic", "number"):
            return v.op not in ("sym", "const")
        return n in ("float", "Number", "Real", "Complex")
    if isinstance(v, str):
        return n == "str"
    if isinstance(v, Lst):
        return n in ("list", "Iterable", "Sequence", "Sized", "MutableSequence", "Collection")
    if isinstance(v, tuple):
        return n in ("tuple", "Iterable", "Sequence", "Sized", "Collection")
    if isinstance(v, Dct):
        return n in ("dict", "Mapping", "Iterable", "Sized")
    if isinstance(v, DF):
        return n == "DataFrame"
    if v is None:
        return n == "NoneType"
    if isinstance(v, range):
        return n in ("range", "Iterable", "Sequence")
    if isinstance(v, (Func, Bound)):
        return n in ("Callable", "FunctionType")
    return False


def math_call(I, last, args, kw, root):
    for a in args:
        if isinstance(a, Arr) and a.ndim > 0:
            if last in ("prod", "fsum"):
                continue
            raise PyRaise("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
        if isinstance(a, (Lst, tuple)) and last not in ("prod", "fsum", "dist", "hypot"):
            raise PyRaise("TypeError", "must be real number, not list")
    if last in U1:
        r = U1[last](real_only(I.N(args[0]), "math." + last) if root == "math" else I.N(args[0]))
        if last in ("floor", "ceil", "trunc"):
            i = toint(I, r)
            return r if i is None else i
        return r
    if last == "log" and len(args) == 2:
        return ir.div(ir.fn("log", I.N(args[0])), ir.fn("log", I.N(args[1])))
    if last in U2:
        return U2[last](I.N(args[0]), I.N(args[1]))
    if last in ("log",):
        return ir.fn("log", I.N(args[0]))
    if last in ("fsum", "prod"):
        it = I.iterate(args[0])
        return I.top(last) if it is None else (nsum if last == "fsum" else fold(ir.mul))([I.N(x) for x in it])
    if last == "isclose":
        return call_native(I, "numpy.isclose", [args[0], args[1]], {"rtol": kw.get("rel_tol", C(1e-9)), "atol": kw.get("abs_tol", 0)})
    if last == "phase":
        return ir.fn("arg", I.N(args[0]))
    if last == "isqrt":
        return I.top("isqrt")
    if last == "gamma":
        return ir.mk("atom", (I.N(args[0]),), ("gamma", 0))
    return I.top("math.%s" % last)


def shape_arg(I, v):
    if isinstance(v, (tuple, Lst)):
        s = [toint(I, x) for x in I.iterate(v)]
    else:
        s = [toint(I, v)]
    if any(x is None for x in s):
        return None
    return tuple(s)


def out_kw(I, r, kw):
    o = kw.get("out")
    if o is None:
        return r
    if isinstance(o, tuple):
        o = o[0]
    if isinstance(o, Arr):
        setitem(I, o, SliceV(None, None, None) if o.ndim else (), r)
        return o
    return r


def where_kw(I, r, kw):
    return r


def concat(I, arrs, axis):
    arrs = [asarr(I, a) for a in arrs]
    if any(not isinstance(a, Arr) for a in arrs):
        return I.top("concatenate")
    if axis is None:
        out = []
        for a in arrs:
            out += I.elems(a)
        return I.newarr(out, (len(out),))
    nd = arrs[0].ndim
    if nd == 0 or any(a.ndim != nd for a in arrs):
        raise PyRaise("ValueError", "all the input arrays must have same number of dimensions")
    axis = norm_axis(axis, nd)
    for a in arrs:
        for i in range(nd):
            if i != axis and a.shape[i] != arrs[0].shape[i]:
                raise PyRaise("ValueError", "concatenation dimensions must match exactly")
    pre = prod(arrs[0].shape[:axis])
    out = []
    els = [I.elems(a) for a in arrs]
    for p in range(pre):
        for a, es in zip(arrs, els):
            blk = prod(a.shape[axis:])
            out += es[p * blk:(p + 1) * blk]
    sh = list(arrs[0].shape)
    sh[axis] = sum(a.shape[axis] for a in arrs)
    dts = [I.dtype(a) for a in arrs if a.size]
    dt = None
    if dts:
        dt = max(dts, key=lambda d: "bifcO".index(d))
    return I.newarr(out, tuple(sh), dt)


def seq_of(I, v):
    it = I.iterate(v)
    return it


def kwarg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def numpy_call(I, name, last, args, kw):
    o = kw.get("out")
    if isinstance(o, tuple) and len(o) == 1:
        o = o[0]
    if isinstance(o, Arr) and "where" not in kw:
        return out_kw(I, numpy_call(I, name, last, args, {k: v for k, v in kw.items() if k != "out"}), {"out": o})
    return numpy_call_(I, name, last, args, kw)


def put_like(I, o, last, sel, vals):
    """np.put (positions, wrapped values), np.place (values in turn), np.putmask (values by position)."""
    vals = asarr(I, vals)
    vs = I.elems(vals) if isinstance(vals, Arr) else [I.N(vals)]
    sel = asarr(I, sel)
    es = I.elems(o)
    if last == "put":
        ix = [toint(I, x) for x in (I.elems(sel) if isinstance(sel, Arr) else [sel])]
        if any(x is None for x in ix):
            return False
        for n, x in enumerate(ix):
            if not -o.size <= x < o.size:
                raise PyRaise("IndexError", "index out of bounds")
            es[x % o.size] = vs[n % len(vs)]
    else:
        ms = I.elems(sel) if isinstance(sel, Arr) else [I.N(sel)]
        if len(ms) == 1:
            ms = ms * o.size
        if len(ms) != o.size:
            return False
        n = 0
        for x, m in enumerate(ms):
            c = _bool(m)
            if last == "place" and len(vs) > 1 and c.op not in ("true", "false"):
                return False
            es[x] = ir.sel(c, vs[(n if last == "place" else x) % len(vs)], es[x])
            n += c.op == "true"
    I.write_buf(o, range(o.size), es)
    return True


def numpy_call_(I, name, last, args, kw):
    args = [I.flat(a) if isinstance(a, Phi) else a for a in args]
    if name.startswith("numpy.linalg"):
        return linalg(I, last, args, kw)
    if name.startswith("numpy.fft") or name.startswith("numpy.polynomial") or name.startswith("numpy.ma."):
        return I.top(name)
    if last == "issubdtype":
        r = issubdtype(I, args[0], args[1])
        return I.top("issubdtype") if r is None else r
    if last == "dtype":
        c = dtype_name(I, args[0]) if args else None
        return I.top("dtype") if c is None else Opaque("dtype:" + DTN[c])
    if last in ("result_type", "promote_types", "find_common_type"):
        cs = [I.rawdtype(a) if isinstance(a, Arr) else I.N(a).kind if isnum(a) else dtype_name(I, a) for a in args]
        if None in cs or any(c not in "bifc" for c in cs):
            return I.top(last)
        return Opaque("dtype:" + DTN[max(cs, key="bifc".index)])
    if any(isinstance(a, Opaque) for a in args[:1]):
        return I.top("%s of opaque" % name)
    if len(name.split(".")) == 3 and last in ("reduce", "accumulate", "outer", "at", "reduceat"):
        u = name.split(".")[1]
        g = U2.get(u)
        if g is None:
            return I.top(name)
        if last == "outer":
            a, b = asarr(I, args[0]), asarr(I, args[1])
            if not isinstance(a, Arr) or not isinstance(b, Arr):
                return I.top(name)
            ea, eb = I.elems(a), I.elems(b)
            return out_kw(I, I.newarr([g(x, y) for x in ea for y in eb], tuple(a.shape) + tuple(b.shape)), kw)
        if last == "accumulate":
            a = asarr(I, args[0])
            if not isinstance(a, Arr):
                return I.top(name)
            ax = norm_axis(toint(I, kwarg(args, kw, 1, "axis", 0)), a.ndim)
            es = I.elems(a)
            sh = a.shape
            n, inner = sh[ax], prod(sh[ax + 1:])
            out = list(es)
            for p in range(len(es)):
                if p // inner % n:
                    out[p] = g(out[p - inner], es[p])
            return out_kw(I, I.newarr(out, sh), kw)
        if last == "reduce":
            def f(es):
                r = es[0]
                for x in es[1:]:
                    r = g(r, x)
                return r
            f = {"add": nsum, "maximum": REDUCERS["max"], "minimum": REDUCERS["min"], "logical_and": alln, "logical_or": anyn}.get(u, f)
            r = reduce(I, args[0], kwarg(args, kw, 1, "axis", 0), f, kw.get("keepdims") is True)
            if "initial" in kw or "where" in kw:
                return I.top(name)
            return out_kw(I, r, kw)
        if last == "at" and isinstance(args[0], Arr):
            if isinstance(args[1], Arr) and I.dtype(args[1]) == "b" or len(args) == 2:
                cur = getitem(I, args[0], args[1])
                v = ew(I, g, cur, args[2]) if len(args) > 2 else I.top(name)
                setitem(I, args[0], args[1], v)
                return None
            for k, ix in enumerate(seq_of(I, args[1]) if not isnum(args[1]) else [args[1]]):
                v = args[2]
                if not isnum(v):
                    v = getitem(I, v, k)
                setitem(I, args[0], ix, ew(I, g, getitem(I, args[0], ix), v))
            return None
        return I.top(name)
    if "where" in kw and last not in ("sum", "mean"):
        w = kw.pop("where")
        o = kw.get("out")
        r = numpy_call(I, name, last, args, {k: v for k, v in kw.items() if k != "out"})
        if isinstance(o, Arr) and isinstance(r, (Arr, Node)):
            m = ew(I, lambda c, x, y: ir.sel(_bool(c), x, y), w, r, o)
            setitem(I, o, SliceV(None, None, None), m)
            return o
        return ew(I, lambda c, x: ir.sel(_bool(c), x, I.topn("uninitialised")), w, r)
    if last in ("round", "around", "round_"):
        nd = toint(I, kwarg(args, kw, 1, "decimals", 0))
        if nd is None:
            return I.top("round")
        s = C(Fraction(10) ** nd)
        return out_kw(I, ew(I, lambda x: ir.div(ir.fn("rint", ir.mul(x, s)), s), args[0]), kw)
    if last in ("real_if_close",):
        return args[0]
    if last in ("any", "all", "sum", "mean", "prod", "max", "min", "amax", "amin", "std", "var", "nansum", "product"):
        a = args[0]
        if isinstance(a, Masked):
            return masked_reduce(I, a, last)
        arr = asarr(I, a)
        if isinstance(arr, Arr) and arr.size == 0 and last in ("max", "min", "amax", "amin"):
            raise PyRaise("ValueError", "zero-size array to reduction operation")
        f = REDUCERS[last]
        if last in ("std", "var"):
            dd = toint(I, kw.get("ddof", 0)) or 0
            f = (lambda es: var_(es, dd)) if last == "var" else (lambda es: ir.sqrt(var_(es, dd)))
        r = reduce(I, a, kwarg(args, kw, 1, "axis"), f, kw.get("keepdims") is True)
        return out_kw(I, boolres(r) if isinstance(r, Node) else r, kw)
    if last in U1 and len(args) >= 1 and last not in ("array",):
        f = U1[last]
        if last == "reciprocal":
            r0 = asarr(I, args[0])
            if isinstance(r0, Arr) and I.dtype(r0) == "i" or isinstance(r0, int) or isinstance(r0, Node) and r0.kind == "i":
                f = lambda x: ir.fn("trunc", ir.div(C(1), x))
        r = ew(I, f, args[0])
        if len(args) > 1 and isinstance(args[1], Arr):
            kw = dict(kw, out=args[1])
        if isinstance(r, Node) and r.kind == "b":
            r = boolres(r)
        return out_kw(I, r, kw)
    if last in U2 and len(args) >= 2:
        if last == "power":
            I.intpow(args[0] if isinstance(args[0], Arr) else asarr(I, args[0]), args[1])
        r = ew(I, U2[last], args[0], args[1])
        if len(args) > 2 and isinstance(args[2], Arr):
            kw = dict(kw, out=args[2])
        if isinstance(r, Node) and r.kind == "b":
            r = boolres(r)
        return out_kw(I, r, kw)
    if last in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray", "asarray_chkfinite", "require", "copy"):
        dt = dtype_name(I, kwarg(args, kw, 1, "dtype"))
        if kwarg(args, kw, 1, "dtype") is not None and dt is None and last != "copy":
            return I.top("array dtype")
        a = args[0]
        if isinstance(a, DF):
            return asarr(I, a)
        cp = last in ("array", "copy") and kw.get("copy") is not False
        if last == "asfarray":
            dt = "f"
        r = asarr(I, a, dt, cp)
        nd = toint(I, kw.get("ndmin", 0)) or 0
        if isinstance(r, Arr) and r.ndim < nd:
            r = Arr(r.buf, r.idx, (1,) * (nd - r.ndim) + r.shape)
        return r
    if last in ("float64", "float32", "float16", "half", "single", "csingle", "complex64", "double", "longdouble", "int64", "int32", "int16", "int8",
                "uint8", "uint16", "uint32", "uint64", "complex128", "bool_", "int_", "float_", "intp"):
        d = dtype_name(I, Native(last))
        if not args:
            return C(Fraction(0))
        v = args[0]
        if isinstance(v, (Arr, Lst, tuple)):
            a = asarr(I, v)
            return I.newarr(I.elems(a), a.shape, d) if isinstance(a, Arr) else a
        return I.cast(I.N(v), d) if d else I.top(last)
    if last in ("zeros", "ones", "empty", "full"):
        sh = shape_arg(I, kwarg(args, kw, 0, "shape"))
        if sh is None:
            return I.top("%s shape" % last)
        dt = dtype_name(I, kwarg(args, kw, 2 if last == "full" else 1, "dtype"))
        n = prod(sh)
        if n > 200000:
            return I.top("big array")
        if last == "full":
            fv = kwarg(args, kw, 1, "fill_value")
            if isinstance(fv, (Lst, tuple, Arr)):
                a = asarr(I, fv)
                es = I.elems(a)
                return I.newarr([es[i] for i in bindex(a.shape, sh)], sh, dt)
            x = I.N(fv)
            return I.newarr([x] * n, sh, dt)
        if last == "empty":
            return I.newarr([I.topn("uninitialised element") for _ in range(n)], sh, dt or "f")
        return I.newarr([C(Fraction(0 if last == "zeros" else 1))] * n, sh, dt or "f")
    if last in ("zeros_like", "ones_like", "empty_like", "full_like"):
        a = asarr(I, args[0])
        if not isinstance(a, Arr):
            return I.top(last)
        dt = dtype_name(I, kw.get("dtype")) or I.rawdtype(a)
        if last == "full_like":
            v = I.N(kwarg(args, kw, 1, "fill_value"))
            return I.newarr([v] * a.size, a.shape, dt)
        if last == "empty_like":
            return I.newarr([I.topn("uninitialised element") for _ in range(a.size)], a.shape, dt)
        return I.newarr([C(Fraction(0 if last == "zeros_like" else 1))] * a.size, a.shape, dt)
    if last in ("eye", "identity"):
        n = toint(I, args[0])
        m = toint(I, args[1]) if len(args) > 1 and last == "eye" else n
        if n is None or m is None or kw.get("k"):
            return I.top(last)
        return I.newarr([C(Fraction(1 if i == j else 0)) for i in range(n) for j in range(m)], (n, m), "f")
    if last == "diag":
        a = asarr(I, args[0])
        if not isinstance(a, Arr) or len(args) > 1:
            return I.top("diag")
        es = I.elems(a)
        if a.ndim == 1:
            n = a.size
            return I.newarr([es[i] if i == j else C(Fraction(0)) for i in range(n) for j in range(n)], (n, n), I.rawdtype(a))
        n = min(a.shape)
        return I.newarr([es[i * a.shape[1] + i] for i in range(n)], (n,))
    if last == "linspace":
        a, b = I.N(args[0]), I.N(args[1])
        n = toint(I, kwarg(args, kw, 2, "num", 50))
        if n is None or n > 20000:
            return I.top("linspace size")
        ep = kw.get("endpoint", True) is not False
        den = (n - 1 if ep else n) or 1
        if a.op == "const" and b.op == "const":
            es = [C(a.data[0] + (b.data[0] - a.data[0]) * i / den, "f") for i in range(n)]
        else:
            d = ir.sub(b, a)
            es = [ir.tofloat(a) if i == 0 else (ir.tofloat(b) if ep and i == n - 1 else ir.add(a, ir.mul(d, C(Fraction(i, den))))) for i in range(n)]
        r = I.newarr(es, (n,), "f")
        return (r, ir.div(ir.sub(b, a), C(den))) if kw.get("retstep") is True else r
    if last in ("logspace", "geomspace"):
        n = toint(I, kwarg(args, kw, 2, "num", 50))
        if n is None or last == "geomspace":
            return I.top(last)
        a, b = I.N(args[0]), I.N(args[1])
        base = I.N(kw.get("base", 10))
        d = ir.sub(b, a)
        return I.newarr([ir.pow_(ir.tofloat(base), ir.tofloat(ir.add(a, ir.mul(d, C(Fraction(i, max(n - 1, 1))))))) for i in range(n)], (n,), "f")
    if last == "arange":
        a = [I.N(x) for x in args]
        if len(a) == 1:
            a = [C(0), a[0]]
        if len(a) == 2:
            a.append(I.N(kw.get("step", 1)))
        cs = [ir.cval(x) for x in a]
        if any(c is None for c in cs) or cs[2] == 0:
            return I.top("arange of symbolic bound")
        n = max(0, math.ceil((float(cs[1]) - float(cs[0])) / float(cs[2])))
        if n > 20000:
            return I.top("arange size")
        kd = "i" if all(x.kind == "i" for x in a) else "f"
        return I.newarr([C(cs[0] + i * cs[2], kd) for i in range(n)], (n,), kd)
    if last in ("dot", "matmul", "inner"):
        if last == "inner":
            x, y = asarr(I, args[0]), asarr(I, args[1])
            if isinstance(x, Arr) and isinstance(y, Arr) and x.ndim == 1 and y.ndim == 1:
                return dot(I, x, y)
            return I.top("inner")
        return out_kw(I, dot(I, args[0], args[1]), kw)
    if last == "vdot":
        x, y = asarr(I, args[0]), asarr(I, args[1])
        if isinstance(x, Arr) and isinstance(y, Arr):
            return dot(I, Arr(x.buf, x.idx, (x.size,)), Arr(y.buf, y.idx, (y.size,)))
        return I.top("vdot")
    if last == "outer":
        x, y = asarr(I, args[0]), asarr(I, args[1])
        if isinstance(x, Arr) and isinstance(y, Arr):
            return I.newarr([ir.mul(p, q) for p in I.elems(x) for q in I.elems(y)], (x.size, y.size))
        return I.top("outer")
    if last == "cross":
        x, y = asarr(I, args[0]), asarr(I, args[1])
        if isinstance(x, Arr) and isinstance(y, Arr) and x.shape == (3,) and y.shape == (3,):
            a, b = I.elems(x), I.elems(y)
            f = lambda i, j: ir.sub(ir.mul(a[i], b[j]), ir.mul(a[j], b[i]))
            return I.newarr([f(1, 2), f(2, 0), f(0, 1)], (3,))
        return I.top("cross")
    if last == "einsum":
        return einsum(I, args)
    if last == "where":
        if len(args) == 1:
            a = asarr(I, args[0])
            if isinstance(a, Arr):
                es = [decided(I, _bool(e)) for e in I.elems(a)]
                if all(e in (ir.TRUE, ir.FALSE) for e in es) and a.ndim == 1:
                    ids = [C(i) for i, e in enumerate(es) if e is ir.TRUE]
                    return (I.newarr(ids, (len(ids),), "i"),)
            return I.top("where/1")
        c, a, b = args
        if isinstance(c, bool):
            c = C(c)
        r = ew(I, lambda m, x, y: ir.sel(decided(I, _bool(m)), x, y), c, a, b)
        if isinstance(r, Node):
            # numpy.where returns an array even for scalars
            return I.newarr([r], ())
        return r
    if last == "select":
        cl, vl = I.iterate(args[0]), I.iterate(args[1])
        if cl is None or vl is None:
            return I.top("select")
        r = kwarg(args, kw, 2, "default", 0)
        for c, v in reversed(list(zip(cl, vl))):
            r = ew(I, lambda m, x, y: ir.sel(decided(I, _bool(m)), x, y), c, v, r)
        if isinstance(r, Node):
            return I.newarr([r], ())
        return r
    if last == "piecewise":
        x = asarr(I, args[0])
        cl, fl = I.iterate(args[1]), I.iterate(args[2])
        if cl is None or fl is None or not isinstance(x, Arr):
            return I.top("piecewise")
        r = C(Fraction(0))
        ap = lambda g: I.call(g, [x], {}) if not isnum(g) else g
        if len(fl) == len(cl) + 1:
            r = ap(fl[-1])
        for c, g in zip(cl, fl):
            r = ew(I, lambda m, p, q: ir.sel(_bool(m), p, q), c, ap(g), r)
        return r if isinstance(r, Arr) else I.newarr([I.N(r)], ()) if not isinstance(r, Top) else r
    if last == "clip":
        lo, hi = kwarg(args, kw, 1, "a_min", kw.get("min")), kwarg(args, kw, 2, "a_max", kw.get("max"))
        r = args[0]
        if lo is not None:
            r = ew(I, lambda x, y: ir.fn("max2", x, y), r, lo)
        if hi is not None:
            r = ew(I, lambda x, y: ir.fn("min2", x, y), r, hi)
        return out_kw(I, r, kw)
    if last == "nan_to_num":
        return ew(I, lambda x: ir.sel(ir.isnan(x), I.N(kw.get("nan", 0)), x), args[0])
    if last in ("concatenate", "hstack", "vstack", "stack", "column_stack", "row_stack", "append", "dstack", "r_", "c_"):
        if last == "append":
            seq = [args[0], args[1]]
            ax = kwarg(args, kw, 2, "axis")
            return concat(I, seq, toint(I, ax) if ax is not None else None)
        seq = seq_of(I, args[0])
        if seq is None:
            return I.top(last)
        arrs = [asarr(I, a) for a in seq]
        if any(not isinstance(a, Arr) for a in arrs):
            return I.top("%s of unknown" % last)
        if last == "concatenate":
            ax = kwarg(args, kw, 1, "axis", 0)
            return concat(I, arrs, toint(I, ax) if ax is not None else None)
        if last == "hstack":
            arrs = [Arr(a.buf, a.idx, (1,)) if a.ndim == 0 else a for a in arrs]
            return concat(I, arrs, 0 if arrs[0].ndim == 1 else 1)
        if last in ("vstack", "row_stack"):
            arrs = [Arr(a.buf, a.idx, (1, a.size)) if a.ndim <= 1 else a for a in arrs]
            return concat(I, arrs, 0)
        if last == "column_stack":
            arrs = [Arr(a.buf, a.idx, (a.size, 1)) if a.ndim <= 1 else a for a in arrs]
            return concat(I, arrs, 1)
        if last == "stack":
            ax = toint(I, kwarg(args, kw, 1, "axis", 0))
            if any(a.shape != arrs[0].shape for a in arrs):
                raise PyRaise("ValueError", "all input arrays must have the same shape")
            nd = arrs[0].ndim + 1
            ax = ax % nd
            arrs = [Arr(a.buf, a.idx, a.shape[:ax] + (1,) + a.shape[ax:]) for a in arrs]
            return concat(I, arrs, ax)
        return I.top(last)
    if last == "block":
        rows = I.iterate(args[0])
        if rows is None:
            return I.top("block")
        if rows and isinstance(rows[0], Lst):
            rr = []
            for r in rows:
                ar = [asarr(I, a) for a in I.iterate(r)]
                if any(not isinstance(a, Arr) for a in ar):
                    return I.top("block")
                ar = [Arr(a.buf, a.idx, (1,) * (2 - a.ndim) + a.shape) for a in ar]
                rr.append(concat(I, ar, 1))
            return concat(I, rr, 0)
        return numpy_call(I, "numpy.hstack", "hstack", args, kw)
    if last in ("reshape",):
        a = asarr(I, args[0])
        return reshape(I, a, kwarg(args, kw, 1, "shape", kw.get("newshape"))) if isinstance(a, Arr) else I.top("reshape")
    if last in ("ravel", "flatten"):
        a = asarr(I, args[0])
        return Arr(a.buf, a.idx, (a.size,)) if isinstance(a, Arr) else I.top("ravel")
    if last in ("transpose", "swapaxes", "moveaxis"):
        a = asarr(I, args[0])
        if not isinstance(a, Arr):
            return I.top(last)
        if last == "transpose":
            ax = kwarg(args, kw, 1, "axes")
            return transpose(I, a, None if ax is None else tuple(toint(I, x) for x in I.iterate(ax)))
        if last == "swapaxes":
            i, j = toint(I, args[1]) % a.ndim, toint(I, args[2]) % a.ndim
            ax = list(range(a.ndim))
            ax[i], ax[j] = ax[j], ax[i]
            return transpose(I, a, tuple(ax))
        return I.top(last)
    if last == "squeeze":
        a = asarr(I, args[0])
        if not isinstance(a, Arr):
            return a
        return Arr(a.buf, a.idx, tuple(s for s in a.shape if s != 1), a.series)
    if last == "expand_dims":
        a = asarr(I, args[0])
        ax = toint(I, kwarg(args, kw, 1, "axis"))
        if not isinstance(a, Arr) or ax is None:
            return I.top(last)
        ax = ax % (a.ndim + 1)
        return Arr(a.buf, a.idx, a.shape[:ax] + (1,) + a.shape[ax:])
    if last in ("atleast_1d", "atleast_2d"):
        out = []
        for v in args:
            a = asarr(I, v)
            if not isinstance(a, Arr):
                return I.top(last)
            m = 1 if last == "atleast_1d" else 2
            out.append(Arr(a.buf, a.idx, (1,) * max(0, m - a.ndim) + a.shape))
        return out[0] if len(out) == 1 else Lst(I.alloc(tuple(out)))
    if last == "broadcast_to":
        a = asarr(I, args[0])
        sh = shape_arg(I, args[1])
        if not isinstance(a, Arr) or sh is None:
            return I.top(last)
        if bshape([a.shape, sh]) != sh:
            raise PyRaise("ValueError", "broadcast")
        return Arr(a.buf, tuple(a.idx[i] for i in bindex(a.shape, sh)), sh)
    if last == "broadcast_arrays":
        ars = [asarr(I, a) for a in args]
        if any(not isinstance(a, Arr) for a in ars):
            return I.top(last)
        sh = bshape([a.shape for a in ars])
        return tuple(Arr(a.buf, tuple(a.idx[i] for i in bindex(a.shape, sh)), sh) for a in ars)
    if last == "meshgrid":
        ars = [asarr(I, a) for a in args]
        if any(not isinstance(a, Arr) for a in ars) or len(ars) != 2:
            return I.top(last)
        x, y = I.elems(ars[0]), I.elems(ars[1])
        if kw.get("indexing") == "ij":
            return Lst(I.alloc((I.newarr([p for p in x for _ in y], (len(x), len(y))), I.newarr([q for _ in x for q in y], (len(x), len(y))))))
        return Lst(I.alloc((I.newarr([p for _ in y for p in x], (len(y), len(x))), I.newarr([q for q in y for _ in x], (len(y), len(x))))))
    if last in ("tile", "repeat"):
        a = asarr(I, args[0])
        n = toint(I, args[1])
        if not isinstance(a, Arr) or n is None or (last == "repeat" and (kw or len(args) > 2) and a.ndim != 1):
            return I.top(last)
        es = I.elems(a)
        if last == "tile":
            if a.ndim > 1:
                return I.top("tile")
            return I.newarr(es * n, (len(es) * n,))
        return I.newarr([e for e in es for _ in range(n)], (len(es) * n,))
    if last in ("flip", "flipud", "fliplr"):
        a = asarr(I, args[0])
        if isinstance(a, Arr) and a.ndim == 1:
            return getitem(I, a, SliceV(None, None, -1))
        return I.top(last)
    if last == "roll":
        a = asarr(I, args[0])
        k = toint(I, args[1])
        if isinstance(a, Arr) and a.ndim == 1 and k is not None and a.size:
            es = I.elems(a)
            k = k % len(es)
            return I.newarr(es[-k:] + es[:-k] if k else es, a.shape)
        return I.top("roll")
    if last in ("cumsum", "cumprod"):
        a = asarr(I, args[0])
        ax = kwarg(args, kw, 1, "axis")
        if isinstance(a, Arr) and (a.ndim == 1 or ax is None):
            out = []
            acc = None
            for e in I.elems(a):
                acc = e if acc is None else (ir.add(acc, e) if last == "cumsum" else ir.mul(acc, e))
                out.append(acc)
            return I.newarr(out, (len(out),))
        return I.top(last)
    if last == "diff":
        a = asarr(I, args[0])
        if isinstance(a, Arr) and a.ndim == 1 and toint(I, kwarg(args, kw, 1, "n", 1)) == 1:
            es = I.elems(a)
            return I.newarr([ir.sub(es[i + 1], es[i]) for i in range(len(es) - 1)], (max(0, len(es) - 1),))
        return I.top("diff")
    if last in ("trapz", "trapezoid"):
        y = asarr(I, args[0])
        x = kwarg(args, kw, 1, "x")
        if isinstance(y, Arr) and y.ndim == 1:
            ys = I.elems(y)
            if x is not None:
                x = asarr(I, x)
                if not isinstance(x, Arr):
                    return I.top("trapz")
                xs = I.elems(x)
                ds = [ir.sub(xs[i + 1], xs[i]) for i in range(len(xs) - 1)]
            else:
                ds = [I.N(kw.get("dx", 1))] * (len(ys) - 1)
            return nsum([ir.mul(d, ir.mul(C(Fraction(1, 2)), ir.add(ys[i], ys[i + 1]))) for i, d in enumerate(ds)])
        return I.top("trapz")
    if last == "average":
        w = kwarg(args, kw, 2, "weights")
        ax = kwarg(args, kw, 1, "axis")
        if w is None:
            return reduce(I, args[0], ax, mean_)
        if ax is None or (isinstance(ax, int)):
            num = reduce(I, ew(I, ir.mul, args[0], w), ax, nsum)
            den = reduce(I, w, None, nsum)
            return ew(I, ir.div, num, den)
        return I.top("average")
    if last in ("median", "nanmean", "nanmax", "nanmin", "nanstd", "percentile", "quantile", "histogram", "digitize",
                "argsort", "argmax", "argmin", "searchsorted", "unique", "nonzero", "argwhere", "flatnonzero", "corrcoef",
                "cov", "gradient", "convolve", "count_nonzero", "lexsort"):
        if last == "count_nonzero":
            a = asarr(I, args[0])
            if isinstance(a, Arr):
                return nsum([ir.asnum(_bool(e)) for e in I.elems(a)])
        if last in ("nonzero",):
            r = numpy_call(I, "numpy.where", "where", args[:1], {})
            return r
        if last == "flatnonzero":
            r = numpy_call(I, "numpy.where", "where", args[:1], {})
            return r[0] if isinstance(r, tuple) else r
        if last in ("median", "percentile", "quantile") and len(args) <= 3 and set(kw) <= {"axis", "keepdims", "q"}:
            rest = list(args[1:])
            q = C(Fraction(1, 2)) if last == "median" else rest.pop(0) if rest else kw.get("q")
            ax = rest.pop(0) if rest else kw.get("axis")
            q = q if isinstance(q, (int, float)) else ir.cval(q) if isinstance(q, Node) else None
            a = asarr(I, args[0])
            if q is not None and not rest and isinstance(a, Arr) and 0 < a.size <= SORTMAX:
                q = Fraction(q) / (100 if last == "percentile" else 1)
                if 0 <= q <= 1:
                    def stat(es):
                        t = sorted_net(es)
                        k = q * (len(t) - 1)
                        i = int(k)
                        return t[i] if k == i else ir.add(ir.mul(C(1 - (k - i)), t[i]), ir.mul(C(k - i), t[i + 1]))
                    return reduce(I, a, ax, stat, kw.get("keepdims", False) is True)
        if last in ("argmax", "argmin"):
            a = asarr(I, args[0])
            if isinstance(a, Arr) and a.ndim == 1 and a.size and a.size <= 64 and len(args) == 1 and not kw:
                es = I.elems(a)
                best, bi = es[0], C(0)
                for i, e in enumerate(es[1:], 1):
                    c = decided(I, ir.lt(best, e) if last == "argmax" else ir.lt(e, best))
                    best, bi = ir.sel(c, e, best), ir.sel(c, C(i), bi)
                i = toint(I, bi)
                return bi if i is None else i
        if last in ("nanmax", "nanmin", "nanmean") and len(args) == 1 and not kw:
            a = asarr(I, args[0])
            if isinstance(a, Arr) and a.size:
                es = I.elems(a)
                if last == "nanmean":
                    ok = [ir.not_(ir.fn("isnan", e)) for e in es]
                    return ir.div(nsum([ir.sel(o, e, C(0)) for o, e in zip(ok, es)]), nsum([ir.asnum(o) for o in ok]))
                r = es[0]
                f = "max2" if last == "nanmax" else "min2"
                for e in es[1:]:
                    r = ir.sel(ir.fn("isnan", r), e, ir.sel(ir.fn("isnan", e), r, ir.fn(f, r, e)))
                return r
        if last == "unique" and len(args) == 1 and not kw:
            a = asarr(I, args[0])
            if isinstance(a, Arr) and a.size <= 12:
                es = []
                for e in I.elems(a):
                    if not any(e is x for x in es):
                        es.append(e)
                # generic position: distinct symbolic elements take distinct values
                return I.newarr(sorted_net(es), (len(es),), I.rawdtype(a))
        if last == "argsort" and len(args) == 1 and not kw:
            a = asarr(I, args[0])
            if isinstance(a, Arr) and a.ndim == 1 and a.size <= SORTMAX:
                es = I.elems(a)
                n = len(es)
                rank = [nsum([ir.asnum(decided(I, ir.lt(es[k], es[i]) if k > i else ir.le(es[k], es[i]))) for k in range(n) if k != i] or [C(0)])
                        for i in range(n)]
                out = []
                for j in range(n):
                    x = C(0)
                    for i in range(1, n):
                        x = ir.sel(decided(I, ir.eq(rank[i], C(j))), C(i), x)
                    out.append(x)
                return I.newarr(out, (n,), "i")
        if last in ("searchsorted", "digitize") and len(args) == 2 and (not kw or set(kw) <= {"side", "right"}):
            xs, v = (args[0], args[1]) if last == "searchsorted" else (args[1], args[0])
            xs = asarr(I, xs)
            if last == "searchsorted":
                right = kw.get("side", "left") == "right"
            else:
                right = not (kw.get("right", False) is True)
            if isinstance(xs, Arr) and xs.ndim == 1 and xs.size <= 64:
                X = I.elems(xs)
                return ew(I, lambda y: nsum([ir.asnum(decided(I, ir.le(x, y) if right else ir.lt(x, y))) for x in X] or [C(0)]), v)
        return I.top("numpy.%s" % last)
    if last == "interp":
        xp, fp = asarr(I, args[1]), asarr(I, args[2])
        if not isinstance(xp, Arr) or not isinstance(fp, Arr) or kw:
            return I.top("interp")
        X, F = I.elems(xp), I.elems(fp)

        def one(x):
            r = F[-1]
            for i in range(len(X) - 2, -1, -1):
                seg = ir.add(F[i], ir.mul(ir.div(ir.sub(F[i + 1], F[i]), ir.sub(X[i + 1], X[i])), ir.sub(x, X[i])))
                r = ir.sel(ir.lt(x, X[i + 1]), seg, r)
            return ir.sel(ir.lt(x, X[0]), F[0], r)
        if len(X) > 300:
            return I.top("interp size")
        return ew(I, one, args[0])
    if last == "polyval":
        p = asarr(I, args[0])
        if not isinstance(p, Arr):
            return I.top("polyval")
        r = C(0)
        for c in I.elems(p):
            r = ew(I, lambda a, x, cc=c: ir.add(ir.mul(a, x), cc), r, args[1])
        return r
    if last == "roots":
        p = asarr(I, args[0])
        if not isinstance(p, Arr) or p.ndim != 1:
            if isinstance(p, Arr):
                raise PyRaise("ValueError", "Input must be a rank-1 array.")
            return I.top("roots")
        es = I.elems(p)
        while es and es[0].op == "const" and es[0].data[0] == 0:
            es = es[1:]
        n = len(es) - 1
        if n < 1:
            return I.newarr([], (0,))
        return I.newarr([ir.mk("atom", tuple(es), ("polyroot", k, "c")) for k in range(n)], (n,), "c")
    if last in ("isclose", "allclose", "array_equal"):
        if last == "array_equal":
            r = ew(I, ir.eq, args[0], args[1])
            if isinstance(r, Arr):
                return boolres(alln(I.elems(r)))
            return boolres(r) if isinstance(r, Node) else r
        rt = I.N(kwarg(args, kw, 2, "rtol", C(1e-5)))
        at = I.N(kwarg(args, kw, 3, "atol", C(1e-8)))
        r = ew(I, lambda a, b: ir.le(ir.fn("abs", ir.sub(a, b)), ir.add(at, ir.mul(rt, ir.fn("abs", b)))), args[0], args[1])
        if last == "allclose" and isinstance(r, Arr):
            return boolres(alln(I.elems(r)))
        return boolres(r) if isinstance(r, Node) else r
    if last in ("size", "shape", "ndim"):
        a = asarr(I, args[0])
        if isinstance(a, Masked):
            return value_attr(I, a, last)
        if not isinstance(a, Arr):
            return I.top(last)
        if last == "size" and len(args) > 1:
            return a.shape[toint(I, args[1])]
        return a.size if last == "size" else tuple(a.shape) if last == "shape" else a.ndim
    if last == "isscalar":
        v = args[0]
        if isinstance(v, Top):
            return I.top("isscalar")
        return isnum(v) or isinstance(v, str)
    if last in ("iscomplexobj", "isrealobj", "iscomplex", "isreal"):
        a = asarr(I, args[0])
        if isinstance(a, Arr):
            if last in ("iscomplexobj", "isrealobj"):
                return (I.dtype(a) == "c") == (last == "iscomplexobj")
            r = ew(I, lambda x: ir.eq(ir.fn("imag", x), C(0)), a)
            return r if last == "isreal" else ew(I, ir.not_, r)
        return I.top(last)
    if last == "vectorize":
        if not args:
            return Native("numpy.vectorize")
        return Vectorized(args[0])
    if last == "frompyfunc":
        return Vectorized(args[0])
    if last in ("apply_along_axis", "apply_over_axes", "fromiter", "fromfunction", "nditer", "ndenumerate", "ndindex"):
        if last == "fromiter":
            it = I.iterate(args[0])
            return asarr(I, tuple(it)) if it is not None else I.top(last)
        if last == "ndindex":
            import itertools
            sh = shape_arg(I, args[0] if len(args) == 1 else tuple(args))
            return Lst(I.alloc(tuple(itertools.product(*[range(s) for s in sh])))) if sh is not None else I.top(last)
        if last == "ndenumerate":
            import itertools
            a = asarr(I, args[0])
            if isinstance(a, Arr):
                return Lst(I.alloc(tuple(zip(itertools.product(*[range(s) for s in a.shape]), I.elems(a)))))
        return I.top(last)
    if last in ("sort",):
        a = asarr(I, args[0])
        if isinstance(a, Arr) and a.ndim == 1 and a.size <= SORTMAX:
            return I.newarr(sorted_net(I.elems(a)), a.shape)
        return I.top("sort")
    if last in ("copyto", "put", "place", "putmask", "fill_diagonal"):
        o = args[0]
        if isinstance(o, Arr):
            if last == "copyto" and "where" not in kw:
                setitem(I, o, SliceV(None, None, None), args[1])
            elif last == "copyto":
                m = ew(I, lambda c, x, y: ir.sel(_bool(c), x, y), kw["where"], args[1], o)
                setitem(I, o, SliceV(None, None, None), m)
            elif last == "fill_diagonal" and o.ndim == 2 and not kw and len(args) == 2 and isnum(args[1]):
                for i in range(min(o.shape)):
                    setitem(I, o, (i, i), args[1])
            elif last == "fill_diagonal" or len(args) != 3 or kw or not put_like(I, o, last, args[1], args[2]):
                I.write_buf(o, range(o.size), [I.topn(last) for _ in range(o.size)])
        return None
    if last in ("errstate", "printoptions", "testing", "warnings"):
        return Opaque(name)
    if last == "take":
        return getitem(I, asarr(I, args[0]), args[1])
    if last == "trace":
        a = asarr(I, args[0])
        if isinstance(a, Arr) and a.ndim == 2:
            es = I.elems(a)
            return nsum([es[i * a.shape[1] + i] for i in range(min(a.shape))])
        return I.top("trace")
    if last == "diagonal":
        return numpy_call(I, "numpy.diag", "diag", args[:1], {})
    if last in ("tril", "triu", "kron", "tensordot"):
        a = asarr(I, args[0])
        if last in ("tril", "triu") and isinstance(a, Arr) and a.ndim == 2:
            k = toint(I, kwarg(args, kw, 1, "k", 0))
            es = I.elems(a)
            m = a.shape[1]
            return I.newarr([e if ((i // m >= i % m - k) if last == "tril" else (i // m <= i % m - k)) else C(Fraction(0))
                             for i, e in enumerate(es)], a.shape, I.dtype(a))
        if last == "kron":
            b = asarr(I, args[1])
            if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 2 and b.ndim == 2:
                ea, eb = I.elems(a), I.elems(b)
                (p, q), (r, s) = a.shape, b.shape
                return I.newarr([ir.mul(ea[i * q + j], eb[k * s + l]) for i in range(p) for k in range(r)
                                 for j in range(q) for l in range(s)], (p * r, q * s))
        return I.top(last)
    if last == "array2string":
        return Opaque("string")
    if last in ("poly1d", "polyfit", "polyder", "finfo", "iinfo", "dtype", "result_type", "can_cast", "shares_memory",
                "may_share_memory", "loadtxt", "genfromtxt", "load", "save", "savetxt", "savez"):
        if last in ("loadtxt", "genfromtxt", "load", "save", "savetxt", "savez"):
            I.effect("io", "call of %s" % name)
        if last == "finfo":
            return Opaque("finfo")
        return I.top("numpy.%s" % last)
    return I.top("numpy.%s" % last)


def einsum(I, args):
    if not isinstance(args[0], str):
        return I.top("einsum")
    spec = args[0].replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    ars = [asarr(I, a) for a in args[1:]]
    if any(not isinstance(a, Arr) for a in ars) or len(ars) != len(ins):
        return I.top("einsum")
    if "." in spec:
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        ext = [a.ndim - len(s.replace("...", "")) if "..." in s else 0 for s, a in zip(ins, ars)]
        if min(ext) < 0:
            raise PyRaise("ValueError", "einsum: too few dimensions")
        ell = "".join(free[:max(ext)])
        if "->" not in spec:
            plain = lhs.replace("...", "")
            rhs = "..." + "".join(sorted(c for c in set(plain) if c != "," and plain.count(c) == 1))
            spec += "->"
        ins = [s.replace("...", ell[len(ell) - e:]) for s, e in zip(ins, ext)]
        rhs = rhs.replace("...", ell)
        if "." in "".join(ins) + rhs:
            return I.top("einsum")
    for s, a in zip(ins, ars):
        if len(s) != a.ndim:
            raise PyRaise("ValueError", "einsum: operand has %d dimensions, subscripts %s" % (a.ndim, s))
    if "->" not in spec:
        rhs = "".join(sorted(c for c in set(lhs) if c != "," and lhs.count(c) == 1))
    dims = {}
    for s, a in zip(ins, ars):
        for c, d in zip(s, a.shape):
            if dims.get(c, 1) != 1 and d not in (1, dims[c]):
                raise PyRaise("ValueError", "einsum: operands could not be broadcast")
            dims[c] = d if dims.get(c, 1) == 1 else dims[c]
    import itertools
    els = [I.elems(a) for a in ars]
    summed = [c for c in dims if c not in rhs]
    out = []
    for o in itertools.product(*[range(dims[c]) for c in rhs]):
        env = dict(zip(rhs, o))
        terms = []
        for s in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, s))
            t = None
            for sp, a, es in zip(ins, ars, els):
                off = 0
                for c, d in zip(sp, a.shape):
                    off = off * d + (env[c] if d != 1 else 0)
                t = es[off] if t is None else ir.mul(t, es[off])
            terms.append(t)
        out.append(nsum(terms))
    if not rhs:
        return out[0]
    return I.newarr(out, tuple(dims[c] for c in rhs))


def linalg(I, last, args, kw):
    a = asarr(I, args[0])
    if not isinstance(a, Arr):
        return I.top("linalg.%s" % last)
    if last in ("inv", "pinv"):
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            if a.ndim > 2:
                return I.top("batched inv")
            raise PyRaise("LinAlgError", "not square")
        n = a.shape[0]
        es = tuple(I.elems(a))
        return I.newarr(inverse(es, n), (n, n))
    if last == "solve":
        b = asarr(I, args[1])
        if a.ndim != 2 or not isinstance(b, Arr):
            return I.top("solve")
        n = a.shape[0]
        inv = I.newarr(inverse(tuple(I.elems(a)), n), (n, n))
        return dot(I, inv, b)
    if last == "det" and a.ndim == 2:
        n = a.shape[0]
        return determinant(I.elems(a), n)
    if last == "norm" and a.ndim == 1 and len(args) == 1 and not kw:
        return ir.sqrt(nsum([ir.pow_(ir.fn("abs", e), C(2)) for e in I.elems(a)]))
    if last == "matrix_power":
        n = toint(I, args[1])
        if n is not None and n >= 1:
            r = a
            for _ in range(n - 1):
                r = dot(I, r, a)
            return r
    return I.top("linalg.%s" % last)


def determinant(es, n):
    if n == 1:
        return es[0]
    if n > 5:
        return ir.top("det")
    r = C(0)
    for j in range(n):
        if es[j].op == "const" and es[j].data[0] == 0:
            continue
        minor = [es[i * n + k] for i in range(1, n) for k in range(n) if k != j]
        t = ir.mul(es[j], determinant(minor, n - 1))
        r = ir.add(r, t) if j % 2 == 0 else ir.sub(r, t)
    return r


def inverse(es, n):
    """inverse of a matrix; block structure from structural zeros, otherwise one
    'matinv' node per entry which the domains evaluate numerically"""
    # connected components of the non-zero pattern
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            e = es[i * n + j]
            if i != j and not (e.op == "const" and e.data[0] == 0):
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    out = [C(Fraction(0))] * (n * n)
    for g in groups.values():
        m = len(g)
        sub = tuple(es[i * n + j] for i in g for j in g)
        if m == 1:
            out[g[0] * n + g[0]] = ir.div(C(1), sub[0])
        else:
            for p in range(m):
                for q in range(m):
                    out[g[p] * n + g[q]] = ir.mk("matinv", sub, (m, p, q))
    return out


def vectorized(I, f, args, kw):
    ars = []
    for a in args:
        if isinstance(a, (Lst, tuple)):
            a = asarr(I, a)
        if isinstance(a, Top):
            return a
        ars.append(a)
    shapes = [a.shape for a in ars if isinstance(a, Arr)]
    sh = bshape(shapes)
    n = prod(sh)
    cols = []
    for a in ars:
        if isinstance(a, Arr):
            es = I.elems(a)
            cols.append([es[i] for i in bindex(a.shape, sh)])
        else:
            cols.append([a] * n)
    res = [I.call(f, list(t), dict(kw)) for t in zip(*cols)] if cols else []
    if res and isinstance(res[0], tuple):
        k = len(res[0])
        return tuple(I.newarr([I.N(r[j]) for r in res], sh) for j in range(k))
    return I.newarr([I.N(r) for r in res], sh)


def scipy_call(I, name, last, args, kw):
    args = [I.flat(a) if isinstance(a, Phi) else a for a in args]
    if name.startswith("scipy.special"):
        if last in ("jv", "jn", "yv", "iv", "kv", "hankel1", "hankel2", "jve", "spherical_jn", "ive", "kve"):
            nn = args[0]
            return ew(I, lambda x: ir.mk("atom", (I.N(nn), x), (last if last != "jn" else "jv", 0, x.kind if x.kind == "c" else "f")), args[1])
        if last in ("j0", "j1", "y0", "y1"):
            k = int(last[1])
            return ew(I, lambda x: ir.mk("atom", (C(k), x), ("jv" if last[0] == "j" else "yv", 0, "f")), args[0])
        if last in ("gamma", "erf", "erfc", "expi", "gammaln"):
            return ew(I, lambda x: ir.mk("atom", (x,), (last, 0)), args[0])
        return I.top(name)
    if name.startswith("scipy.linalg"):
        return linalg(I, last, args, kw)
    if name.startswith("scipy.optimize") and last in ("fsolve", "root"):
        return solve(I, args, kw, last)
    if name.startswith("scipy.integrate") and last in ("odeint",):
        return odeint(I, args, kw)
    if name.startswith("scipy.integrate") and last in ("simpson", "trapezoid", "simps"):
        if last == "trapezoid":
            return numpy_call(I, "numpy.trapz", "trapz", args, kw)
        return I.top(name)
    return I.top(name)


_placeholder = [0]


def solve(I, args, kw, last):
    f, x0 = args[0], args[1]
    extra = kwarg(args, kw, 2, "args", ())
    if not isinstance(extra, tuple):
        extra = (extra,)
    xs = I.iterate(x0) if isinstance(x0, (tuple, Lst)) or (isinstance(x0, Arr) and x0.ndim) else [x0]
    n = len(xs)
    nest = getattr(I, "nest", 0)
    I.nest = nest + 1
    names = ["$u%d_%d" % (nest, k) for k in range(n)]
    us = [ir.sym(nm) for nm in names]
    arg = I.newarr(us, (n,))
    saved_tops = len(I.tops)
    heap0 = dict(I.heap)
    try:
        r = I.flat(I.call(f, [arg] + list(extra), {}))
    finally:
        I.nest = nest
    it = I.iterate(r) if not isnum(r) else [r]
    if it is None or len(it) != n:
        return I.top("fsolve residual")
    res = [I.N(x) for x in it]
    out = [ir.mk("solve", tuple(res) + tuple(I.N(x) for x in xs), (n, k, tuple(names))) for k in range(n)]
    v = I.newarr(out, (n,), "f")
    if last == "root":
        return I.top("root result")
    return v


def odeint(I, args, kw):
    f, y0, t = args[0], args[1], asarr(I, args[2])
    extra = kwarg(args, kw, 3, "args", ())
    if not isinstance(extra, tuple):
        extra = (extra,)
    if not isinstance(t, Arr):
        return I.top("odeint over unknown grid")
    y0a = asarr(I, y0)
    n = y0a.size
    nest = getattr(I, "nest", 0)
    I.nest = nest + 1
    names = ["$y%d_%d" % (nest, k) for k in range(n)] + ["$t%d" % nest]
    us = [ir.sym(nm) for nm in names]
    arg = I.newarr(us[:n], (n,))
    a = [us[n], arg] if kw.get("tfirst") is True else [arg, us[n]]
    try:
        r = I.flat(I.call(f, a + list(extra), {}))
    finally:
        I.nest = nest
    it = I.iterate(r) if not isnum(r) else [r]
    if it is None or len(it) != n:
        return I.top("odeint derivative")
    der = tuple(I.N(x) for x in it)
    ts = I.elems(t)
    ys = I.elems(y0a)
    out = []
    for i, ti in enumerate(ts):
        for k in range(n):
            out.append(ys[k] if i == 0 else ir.mk("ode", der + tuple(ys) + (ts[0], ti), (n, k, tuple(names))))
    return I.newarr(out, (len(ts), n), "f")
