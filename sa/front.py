"""Abstract interpreter over the Python syntax tree.

It walks the functions of the analysed package (helpers inlined at their call
sites, both sides of a data dependent branch evaluated and joined with a gate)
and produces a value graph (ir.Node) for every result.  Nothing is imported or
executed from the analysed package.
"""
import ast
import os
from fractions import Fraction
from . import ir
from .ir import Node
from .values import *
from . import npmodel
from . import interval

MAXDEPTH = 80
MAXSTEPS = 4_000_000


class Env(dict):
    """one frame's variables; lives in the heap (copy on write)"""
    __slots__ = ("parent",)

    def copy(self):
        e = Env(self)
        e.parent = self.parent
        return e


class Frame:
    __slots__ = ("env", "func", "module", "globals_", "nonlocals", "yields", "cls", "localnames")

    def __init__(self, env, func, module):
        self.env = env
        self.func = func
        self.module = module
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.cls = None
        self.localnames = ()


_PARSED = {}


BASE = {"g": "f", "h": "f", "z": "c"}


def pyfloat(n):
    """computed from the scalar arguments by Python's own operators"""
    for x in ir.topo((n,)):
        if x.op == "sym":
            if "[" in str(x.data[0]):
                return False
        elif x.op not in ("const", "add", "sub", "mul", "div", "neg", "pow", "flt"):
            return False
    return True


class Interp:
    def __init__(self, root, package="rockphypy", extra_modules=None):
        self.root = root
        self.package = package
        self.heap = {}
        self.nid = 1
        self.modules = {}
        self.extra = extra_modules or {}
        self.frames = []
        self.depth = 0
        self.steps = 0
        self.ranges = {}
        self.effects = []      # (kind, detail, module, line, qual)
        self.tops = []         # reasons
        self.called = set()    # (module, qual) analysed
        self.loc = ("?", 0)
        self.raise_at = {}
        self.pyfloat = set()
        self.nondet = 0
        self.obligations = []
        self.parsed = {}
        self.callsites = 0
        self._dec = {}
        self.ownerlog = None
        self.bindlog = []
        self.solves = {}
        self.kinds_seen = set()

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        i = self.nid
        self.nid += 1
        self.heap[i] = obj
        return i

    session = None

    def alive(self, v):
        """every part of the value exists in the current state"""
        if isinstance(v, Arr):
            return v.buf in self.heap
        if isinstance(v, tuple):
            return all(self.alive(x) for x in v)
        if isinstance(v, Lst):
            return v.id in self.heap and all(self.alive(x) for x in self.heap[v.id])
        if isinstance(v, (Dct, SetV, DF, Inst)):
            return v.id in self.heap
        return True

    def newarr(self, elems, shape, dtype=None):
        elems = tuple(elems)
        if dtype is None:
            dtype = self.dtype_of(elems)
        b = self.alloc(Buf(tuple(self.cast(e, dtype) for e in elems), dtype))
        return Arr(b, tuple(range(len(elems))), tuple(shape))

    def dtype_of(self, elems):
        ks = {e.kind for e in elems}
        if "c" in ks:
            return "c"
        if not ks:
            return "f"
        if ks == {"b"}:
            return "b"
        if ks <= {"i", "b"}:
            return "i"
        return "f"

    def cast(self, e, dtype):
        if dtype in "ghz":
            e = self.cast(e, "c" if dtype == "z" else "f")
            op = "r16" if dtype == "h" else "r32"
            if e.kind == "c":
                return ir.add(ir.fn(op, ir.fn("real", e)), ir.mul(ir.I, ir.fn(op, ir.fn("imag", e))))
            return ir.fn(op, e)
        if dtype == "f":
            if e.kind == "c":
                return ir.fn("real", e)
            if e.kind == "b":
                return ir.tofloat(ir.asnum(e))
            return ir.tofloat(e)
        if dtype == "i":
            if e.kind in ("f", "c"):
                return ir.fn("trunc", e)
            return ir.asnum(e) if e.kind == "b" else e
        if dtype == "b":
            return e if e.kind == "b" else ir.not_(ir.eq(e, ir.const(0)))
        if dtype == "c" and e.kind in "bi":
            return ir.tofloat(ir.asnum(e))
        return e

    def elems(self, a):
        b = self.heap[a.buf].elems
        return [b[i] for i in a.idx]

    def dtype(self, a):
        d = self.heap[a.buf].dtype
        return BASE.get(d, d)

    def rawdtype(self, a):
        return self.heap[a.buf].dtype

    def write_buf(self, a, positions, values):
        """positions: row-major positions of view a"""
        b = self.heap[a.buf]
        el = list(b.elems)
        for p, v in zip(positions, values):
            el[a.idx[p]] = self.cast(v, b.dtype)
        self.heap[a.buf] = Buf(tuple(el), b.dtype)

    # ------------------------------------------------------------------ misc
    def top(self, reason):
        r = "%s @%s:%s" % (reason, self.loc[0], self.loc[1])
        self.tops.append(r)
        return Top(r)

    def topn(self, reason):
        r = "%s @%s:%s" % (reason, self.loc[0], self.loc[1])
        self.tops.append(r)
        return ir.top(r)

    def effect(self, kind, detail):
        q = self.frames[-1].func.qual if self.frames and self.frames[-1].func else "<module>"
        self.effects.append((kind, detail, self.loc[0], self.loc[1], q))

    def N(self, v):
        """numeric value -> Node"""
        if isinstance(v, Node):
            return v
        if isinstance(v, (bool, int, float, complex)):
            return ir.const(v)
        if isinstance(v, Fraction):
            return ir.const(v)
        if isinstance(v, Arr) and v.size == 1:
            return self.elems(v)[0]
        if isinstance(v, Top):
            return self.topn(v.reason)
        if isinstance(v, RaiseV):
            return ir.raisen(v.msg)
        if isinstance(v, Phi):
            return ir.sel(v.cond, self.N(v.a), self.N(v.b))
        if v is UNDEF:
            return ir.raisen("UnboundLocalError")
        if isinstance(v, str) or v is None or isinstance(v, (Lst, tuple, Dct, Func)):
            raise PyRaise("TypeError", "number expected, got %s" % type(v).__name__)
        return self.topn("not a number: %r" % (v,))

    def decide(self, n):
        """True/False when the declared parameter ranges settle the condition."""
        if n is ir.TRUE:
            return True
        if n is ir.FALSE:
            return False
        r = self._dec.get(n.id, 0)
        if r == 0:
            r = interval.decide(n, self.ranges)
            self._dec[n.id] = r
        return r

    def setranges(self, ranges):
        self.ranges = ranges
        self._dec = {}

    # --------------------------------------------------------------- modules
    def path_of(self, modname):
        if modname in self.extra:
            return self.extra[modname]
        rel = modname.split(".")
        p = os.path.join(self.root, *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def parse(self, path):
        if path not in _PARSED:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            _PARSED[path] = ast.parse(src, path)
        return _PARSED[path]

    def load(self, modname):
        if modname in self.modules:
            return self.modules[modname]
        path = self.path_of(modname)
        if path is None:
            return None
        tree = self.parse(path)
        env = Env()
        env.parent = None
        env["__name__"] = modname
        eid = self.alloc(env)
        m = ModuleV(modname, eid, path)
        self.modules[modname] = m
        fr = Frame(eid, None, m)
        self.frames.append(fr)
        oldloc = self.loc
        try:
            leaves = self.block(tree.body)
            # a module body falls through
            self.heap = self.merge_leaves(leaves)[1]
        finally:
            self.frames.pop()
            self.loc = oldloc
        return m

    # ------------------------------------------------------------- variables
    def lookup(self, name):
        fr = self.frames[-1]
        if name in fr.globals_:
            e = fr.module.env
            env = self.heap[e]
            if name in env:
                return env[name]
            return self.builtin(name)
        e = fr.env
        first = True
        while e is not None:
            env = self.heap[e]
            if name in env:
                return env[name]
            if first and name in fr.localnames and name not in fr.nonlocals:
                raise PyRaise("UnboundLocalError", name)
            first = False
            e = env.parent
        env = self.heap[fr.module.env]
        if name in env:
            return env[name]
        return self.builtin(name)

    BUILTINS = {"range", "len", "zip", "enumerate", "map", "filter", "sum", "min", "max", "abs", "float", "int",
                "str", "bool", "list", "tuple", "dict", "set", "isinstance", "print", "sorted", "reversed", "round",
                "pow", "any", "all", "complex", "type", "getattr", "setattr", "hasattr", "callable", "divmod",
                "object", "staticmethod", "classmethod", "property", "super", "iter", "next", "id", "hash", "repr",
                "vars", "globals", "locals", "open", "input", "format", "slice", "frozenset", "issubclass", "exec",
                "eval", "chr", "ord", "bytes", "memoryview", "__import__"}

    def builtin(self, name):
        if name in self.BUILTINS:
            return Native("builtins." + name)
        import builtins
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if isinstance(o, type) and issubclass(o, BaseException):
                return Native("exc." + name)
            if name in ("NotImplemented", "Ellipsis"):
                return Native("builtins." + name)
            return Native("builtins." + name)
        if name == "__file__":
            return self.top("__file__")
        raise PyRaise("NameError", name)

    def setvar(self, name, val):
        fr = self.frames[-1]
        if name in fr.globals_:
            e = fr.module.env
        elif name in fr.nonlocals:
            e = self.heap[fr.env].parent
            while e is not None and name not in self.heap[e]:
                e = self.heap[e].parent
            if e is None:
                e = fr.env
        else:
            e = fr.env
        env = self.heap[e].copy()
        env[name] = val
        self.heap[e] = env

    def delvar(self, name):
        fr = self.frames[-1]
        env = self.heap[fr.env].copy()
        if name not in env:
            raise PyRaise("NameError", name)
        del env[name]
        self.heap[fr.env] = env

    # ---------------------------------------------------------------- merging
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, (int, float, str, bool, complex)):
            return a == b
        if isinstance(a, Arr):
            return a.buf == b.buf and a.idx == b.idx and a.shape == b.shape
        if isinstance(a, (Lst, Dct, SetV, DF)):
            return a.id == b.id
        if isinstance(a, Inst):
            return a.id == b.id
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Native):
            return a.name == b.name
        if isinstance(a, Bound):
            return self.same(a.func, b.func) and self.same(a.self_, b.self_)
        return False

    def merge(self, c, a, b):
        """value that is a when c holds and b otherwise"""
        if c is ir.TRUE:
            return a
        if c is ir.FALSE:
            return b
        if self.same(a, b):
            return a
        if isnum(a) and isnum(b):
            return ir.sel(c, self.N(a), self.N(b))
        if isinstance(a, RaiseV) or isinstance(b, RaiseV) or a is UNDEF or b is UNDEF:
            x, y = (b, a) if (isinstance(a, RaiseV) or a is UNDEF) else (a, b)
            first = x is b
            rn = ir.raisen(y.msg if isinstance(y, RaiseV) else "UnboundLocalError")
            if isnum(x):
                return ir.sel(c, rn, self.N(x)) if first else ir.sel(c, self.N(x), rn)
            if isinstance(x, tuple):
                return tuple(self.merge(c, y, t) if first else self.merge(c, t, y) for t in x)
            return Phi(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        return Phi(c, a, b)

    def flat(self, v):
        """materialise a Phi of arrays/numbers into one value"""
        if not isinstance(v, Phi):
            return v
        a, b = self.flat(v.a), self.flat(v.b)
        if isinstance(a, Lst) and isinstance(b, Lst):
            x, y = self.heap[a.id], self.heap[b.id]
            if len(x) == len(y):
                return Lst(self.alloc(tuple(self.merge(v.cond, p, q) for p, q in zip(x, y))))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape:
            return self.newarr([ir.sel(v.cond, x, y) for x, y in zip(self.elems(a), self.elems(b))], a.shape)
        if isinstance(a, Arr) and (isinstance(b, RaiseV) or b is UNDEF):
            r = ir.raisen(b.msg if isinstance(b, RaiseV) else "UnboundLocalError")
            return self.newarr([ir.sel(v.cond, x, r) for x in self.elems(a)], a.shape)
        if isinstance(b, Arr) and (isinstance(a, RaiseV) or a is UNDEF):
            r = ir.raisen(a.msg if isinstance(a, RaiseV) else "UnboundLocalError")
            return self.newarr([ir.sel(v.cond, r, x) for x in self.elems(b)], b.shape)
        if isinstance(a, Arr) and isnum(b) and a.shape == ():
            return ir.sel(v.cond, self.elems(a)[0], self.N(b))
        if isinstance(b, Arr) and isnum(a) and b.shape == ():
            return ir.sel(v.cond, self.N(a), self.elems(b)[0])
        m = self.merge(v.cond, a, b)
        return m

    def merge_heap(self, c, ha, hb):
        if ha is hb:
            return ha
        out = dict(hb)
        self_heap = self.heap
        for k, x in ha.items():
            y = hb.get(k)
            if y is None:
                out[k] = x
                continue
            if x is y:
                continue
            out[k] = x  # provisional, so nested lookups work
            self.heap = out
            if isinstance(x, Buf) and isinstance(y, Buf) and len(x.elems) == len(y.elems):
                out[k] = Buf(tuple(ir.sel(c, p, q) for p, q in zip(x.elems, y.elems)),
                             x.dtype if x.dtype == y.dtype else "f")
            elif isinstance(x, Env):
                e = Env()
                e.parent = x.parent
                for name in list(x) + [n for n in y if n not in x]:
                    e[name] = self.merge(c, x.get(name, UNDEF), y.get(name, UNDEF))
                out[k] = e
            elif isinstance(x, dict) and isinstance(y, dict):
                d = {}
                for name in list(x) + [n for n in y if n not in x]:
                    d[name] = self.merge(c, x.get(name, UNDEF), y.get(name, UNDEF))
                out[k] = d
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) == len(y):
                    out[k] = tuple(self.merge(c, p, q) for p, q in zip(x, y))
                else:
                    out[k] = (self.top("list of data dependent length"),)
            else:
                out[k] = x
        self.heap = self_heap
        return out

    def merge_leaves(self, leaves):
        """fold leaves of one kind: -> (value, heap)"""
        g, k, v, h = leaves[-1]
        for (g2, k2, v2, h2) in reversed(leaves[:-1]):
            h = self.merge_heap(g2, h2, h)
            v = self.merge_in(h, g2, v2, v)
        return v, h

    def merge_in(self, h, c, a, b):
        old = self.heap
        self.heap = h
        try:
            return self.merge(c, a, b)
        finally:
            self.heap = old

    # -------------------------------------------------------------- statements
    # a leaf is (guard, kind, value, heap), kind in next/ret/raise/break/cont
    def block(self, stmts):
        done = []
        guard = ir.TRUE
        for s in stmts:
            leaves = self.stmt(s)
            nxt = [l for l in leaves if l[1] == "next"]
            oth = [l for l in leaves if l[1] != "next"]
            for (g, k, v, h) in oth:
                done.append((ir.and_(guard, g), k, v, h))
            if not nxt:
                return done
            if len(leaves) > 1:
                g = ir.FALSE
                for l in nxt:
                    g = ir.or_(g, l[0])
                if oth:
                    guard = ir.and_(guard, g)
                self.heap = self.merge_leaves(nxt)[1]
            else:
                self.heap = nxt[0][3]
        done.append((guard, "next", None, self.heap))
        return done

    def stmt(self, s):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Budget("analysis budget")
        self.loc = (self.frames[-1].module.name, getattr(s, "lineno", 0))
        self.kinds_seen.add(type(s).__name__)
        m = getattr(self, "s_" + type(s).__name__, None)
        try:
            if m is None:
                self.top("statement %s" % type(s).__name__)
                r = None
            else:
                r = m(s)
        except PyRaise as e:
            here = (self.frames[-1].module.name, getattr(s, "lineno", 0))
            if here[0].startswith(self.package):
                self.raise_at.setdefault(e.msg, here)
            return [(ir.TRUE, "raise", str(e), self.heap)]
        if r is None:
            return [(ir.TRUE, "next", None, self.heap)]
        return r

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.package or a.name in self.extra:
                self.load(self.package) if top == self.package else None
                m = self.load(a.name)
                if m is None:
                    raise PyRaise("ModuleNotFoundError", a.name)
                self.setvar(a.asname or top, m if a.asname else self.modules[top])
            elif self.path_local(a.name):
                self.setvar(a.asname or top, self.load(self.path_local(a.name)))
            else:
                self.setvar(a.asname or top, Native(a.name if a.asname else top))

    def path_local(self, name):
        return None

    def s_ImportFrom(self, s):
        mod = s.module or ""
        if s.level:
            base = self.frames[-1].module
            parts = base.name.split(".")
            if not base.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod.split(".")[0] == self.package or mod in self.extra:
            if "." in mod and self.package not in self.modules and mod.split(".")[0] == self.package:
                pass
            m = self.load(mod)
            if m is None:
                raise PyRaise("ModuleNotFoundError", mod)
            for a in s.names:
                env = self.heap[m.env]
                if a.name == "*":
                    for k, v in env.items():
                        if not k.startswith("_"):
                            self.setvar(k, v)
                elif a.name in env:
                    self.setvar(a.asname or a.name, env[a.name])
                else:
                    sub = self.load(mod + "." + a.name)
                    if sub is None:
                        raise PyRaise("ImportError", a.name)
                    self.setvar(a.asname or a.name, sub)
        else:
            for a in s.names:
                if a.name == "*":
                    continue
                if mod + "." + a.name in self.extra:
                    self.setvar(a.asname or a.name, self.load(mod + "." + a.name))
                    continue
                self.setvar(a.asname or a.name, Native(mod + "." + a.name))

    def s_FunctionDef(self, s):
        f = self.mkfunc(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d), v)
        self.setvar(s.name, v)

    def mkfunc(self, s):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [None if d is None else self.ev(d) for d in a.kw_defaults]
        f = Func(s, fr.module, fr.env if fr.func is not None or fr.cls is not None else None, fr.cls,
                 getattr(s, "name", "<lambda>"), defaults, kwd)
        if fr.cls is not None:
            f.env = self.heap[fr.env].parent
        if not isinstance(s, ast.Lambda):
            f.isgen = isgen(s)
        return f

    def decorate(self, d, v):
        if isinstance(d, Native):
            n = d.name.split(".")[-1]
            if n in ("staticmethod", "classmethod", "property") and isinstance(v, Func):
                g = Func(v.node, v.module, v.env, v.cls, v.name, v.defaults, v.kwdefaults)
                g.isgen = v.isgen
                g.kind = n
                return g
            if n == "staticmethod" and isinstance(v, CachedV):
                return v
            if n in ("lru_cache", "cache") and isinstance(v, Func):
                a = v.node.args
                if v.cls is not None and v.kind != "staticmethod" and (a.posonlyargs + a.args) and (a.posonlyargs + a.args)[0].arg in ("self", "cls"):
                    return v
                return CachedV(v)
            if n in ("lru_cache", "cache", "njit", "jit", "wraps", "abstractmethod", "deprecated", "overload", "singledispatch"):
                return v
            if n == "vectorize":
                return Vectorized(v)
            self.top("decorator %s" % d.name)
            return v
        if isinstance(d, Method) and d.name in ("__deco__",):
            return v
        if isinstance(d, PartialV) and isinstance(d.func, Native):
            return self.decorate(d.func, v)
        if isinstance(d, Top):
            return d
        return self.call(d, [v], {})

    def s_AsyncFunctionDef(self, s):
        self.top("async")

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        fr = self.frames[-1]
        env = Env()
        env.parent = fr.env if fr.func is not None else None
        eid = self.alloc(env)
        cls = ClassV(s.name, fr.module, [b for b in bases if isinstance(b, ClassV)], eid)
        nf = Frame(eid, fr.func, fr.module)
        nf.cls = cls
        self.frames.append(nf)
        try:
            leaves = self.block(s.body)
        finally:
            self.frames.pop()
        self.heap = self.merge_leaves(leaves)[1]
        self.setvar(s.name, cls)

    def s_Return(self, s):
        v = None if s.value is None else self.ev(s.value)
        return [(ir.TRUE, "ret", v, self.heap)]

    def s_Raise(self, s):
        msg = "Exception"
        if s.exc is not None:
            try:
                v = self.ev(s.exc)
                if isinstance(v, Native):
                    msg = v.name.split(".")[-1]
                elif isinstance(v, Opaque):
                    msg = v.what
            except PyRaise as e:
                msg = str(e)
        return [(ir.TRUE, "raise", msg, self.heap)]

    def s_Break(self, s):
        return [(ir.TRUE, "break", None, self.heap)]

    def s_Continue(self, s):
        return [(ir.TRUE, "cont", None, self.heap)]

    def s_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def s_Assert(self, s):
        try:
            c = self.truth(self.ev(s.test))
        except PyRaise:
            raise
        if c is False:
            raise PyRaise("AssertionError", "")
        if isinstance(c, Node):
            return [(ir.not_(c), "raise", "AssertionError", self.heap), (c, "next", None, self.heap)]

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delvar(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                if isinstance(o, Dct):
                    d = dict(self.heap[o.id])
                    d.pop(self.hkey(k), None)
                    self.heap[o.id] = d
                elif isinstance(o, Lst) and isinstance(k, int):
                    l = list(self.heap[o.id])
                    del l[k]
                    self.heap[o.id] = tuple(l)
                else:
                    self.top("del")
            else:
                self.top("del attribute")

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.inplace(s.op, cur, self.ev(s.value))
            self.setvar(t.id, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.evslice(t.slice)
            cur = self.getitem(o, k)
            if isinstance(o, (Arr, DF)) or isinstance(o, Phi):
                v = self.binop(s.op, cur, self.ev(s.value))
            else:
                v = self.inplace(s.op, cur, self.ev(s.value))
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.inplace(s.op, cur, self.ev(s.value))
            self.setattr(o, t.attr, v)
        else:
            self.top("augassign target")

    def inplace(self, op, cur, val):
        if isinstance(cur, Phi) and (self.hasarr(cur.a) or self.hasarr(cur.b)):
            c = cur.cond
            h0 = self.heap
            self.heap = dict(h0)
            try:
                a = self.inplace(op, cur.a, val)
            except PyRaise as e:
                a = RaiseV(str(e))
            ha = self.heap
            self.heap = dict(h0)
            try:
                b = self.inplace(op, cur.b, val)
            except PyRaise as e:
                b = RaiseV(str(e))
            hb = self.heap
            self.heap = self.merge_heap(c, ha, hb)
            return self.merge(c, a, b)
        if isinstance(cur, Arr):
            if cur.series:
                return self.binop(op, cur, val)
            r = self.flat(self.binop(op, cur, val))
            dt = self.dtype(cur)
            if isinstance(r, Top):
                self.write_buf(cur, range(cur.size), [self.topn(r.reason) for _ in range(cur.size)])
                return cur
            if isinstance(r, Arr):
                if r.shape != cur.shape:
                    raise PyRaise("ValueError", "in-place operand shape")
                rd = self.dtype(r)
                es = self.elems(r)
            else:
                n = self.N(r)
                rd = n.kind
                es = [n] * cur.size
            if "bifc".index(rd) > "bifc".index(dt):
                raise PyRaise("UFuncTypeError", "in-place cast %s to %s" % (rd, dt))
            self.write_buf(cur, range(cur.size), es)
            return cur
        if isinstance(cur, Lst) and isinstance(op, ast.Add):
            it = self.iterate(val)
            if it is None:
                return self.top("list +=")
            self.heap[cur.id] = self.heap[cur.id] + tuple(it)
            return cur
        return self.binop(op, cur, val)

    def hasarr(self, v):
        return isinstance(v, Arr) or (isinstance(v, Phi) and (self.hasarr(v.a) or self.hasarr(v.b)))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.flat(v)
            if isinstance(v, Top):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v)
                return
            if isinstance(v, Opaque):
                for k, x in enumerate(t.elts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Opaque("%s[%d]" % (v.what, k)))
                return
            it = self.iterate(v)
            if it is None:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.top("unpack"))
                return
            it = list(it)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                if len(it) < n:
                    raise PyRaise("ValueError", "unpack")
                tail = len(t.elts) - i - 1
                mid = it[i:len(it) - tail]
                it = it[:i] + [Lst(self.alloc(tuple(mid)))] + (it[len(it) - tail:] if tail else [])
                for x, y in zip(t.elts, it):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            if len(it) != len(t.elts):
                raise PyRaise("ValueError", "cannot unpack %d values into %d" % (len(it), len(t.elts)))
            for x, y in zip(t.elts, it):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.evslice(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.top("assign target")

    def fork(self, cond, fa, fb):
        """run fa/fb (-> leaves) on forked heaps under cond / not cond"""
        h0 = self.heap
        self.heap = dict(h0)
        la = fa()
        self.heap = dict(h0)
        lb = fb()
        out = [(ir.and_(cond, g), k, v, h) for (g, k, v, h) in la]
        nc = ir.not_(cond)
        out += [(ir.and_(nc, g), k, v, h) for (g, k, v, h) in lb]
        return out

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        if c is True:
            return self.block(s.body)
        if c is False:
            return self.block(s.orelse)
        return self.fork(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def s_For(self, s):
        itv = self.ev(s.iter)
        it = self.iterate(itv)
        if it is None:
            return self.loop_top(s, "loop over unknown iterable")
        return self.loop(list(it), s)

    def loop_top(self, s, why):
        t = self.top(why)
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, t)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                try:
                    o = self.lookup(n.value.id)
                    if isinstance(o, Arr):
                        self.write_buf(o, range(o.size), [self.topn(why) for _ in range(o.size)])
                except PyRaise:
                    pass
            if isinstance(n, ast.Return):
                return [(ir.TRUE, "ret", t, self.heap)]
        return None

    def loop(self, items, s):
        done = []
        guard = ir.TRUE
        broke = []
        for x in items:
            def body():
                self.assign(s.target, x)
                return self.block(s.body)
            try:
                leaves = body()
            except PyRaise as e:
                leaves = [(ir.TRUE, "raise", str(e), self.heap)]
            nxt = []
            for (g, k, v, h) in leaves:
                if k in ("next", "cont"):
                    nxt.append((g, "next", None, h))
                elif k == "break":
                    broke.append((ir.and_(guard, g), "next", None, h))
                else:
                    done.append((ir.and_(guard, g), k, v, h))
            if not nxt:
                guard = ir.FALSE
                break
            g = ir.FALSE
            for l in nxt:
                g = ir.or_(g, l[0])
            if len(leaves) > 1:
                guard = ir.and_(guard, g)
            self.heap = self.merge_leaves(nxt)[1]
        if guard is not ir.FALSE:
            if getattr(s, "orelse", None):
                for (g, k, v, h) in self.block(s.orelse):
                    if k == "next":
                        broke.append((ir.and_(guard, g), k, v, h))
                    else:
                        done.append((ir.and_(guard, g), k, v, h))
            else:
                broke.append((guard, "next", None, self.heap))
        return done + broke

    def s_While(self, s):
        done, broke = [], []
        guard = ir.TRUE
        n = 0
        while True:
            n += 1
            c = self.truth(self.ev(s.test))
            if c is False:
                break
            if isinstance(c, Node) or n > 5000:
                if n > 60 or n > 5000:
                    r = self.loop_top(s, "while with data dependent bound")
                    if r:
                        done += r
                    break
                # data dependent loop: exit now or go round once more
                exit_heap = dict(self.heap)
                broke.append((ir.and_(guard, ir.not_(c)), "next", None, exit_heap))
                guard = ir.and_(guard, c)
                if n > 12:
                    r = self.loop_top(s, "while with data dependent bound")
                    if r:
                        done += [(guard, k, v, h) for (g, k, v, h) in r]
                        guard = ir.FALSE
                    break
            leaves = self.block(s.body)
            nxt = []
            for (g, k, v, h) in leaves:
                if k in ("next", "cont"):
                    nxt.append((g, "next", None, h))
                elif k == "break":
                    broke.append((ir.and_(guard, g), "next", None, h))
                else:
                    done.append((ir.and_(guard, g), k, v, h))
            if not nxt:
                guard = ir.FALSE
                break
            g = ir.FALSE
            for l in nxt:
                g = ir.or_(g, l[0])
            if len(leaves) > 1:
                guard = ir.and_(guard, g)
            self.heap = self.merge_leaves(nxt)[1]
        if guard is not ir.FALSE:
            broke.append((guard, "next", None, self.heap))
        return done + broke

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.block(s.body)

    def s_Try(self, s):
        h0 = dict(self.heap)
        leaves = self.block(s.body)
        out = []
        for (g, k, v, h) in leaves:
            if k == "raise" and s.handlers:
                self.heap = h
                hd = self.pick_handler(s.handlers, v)
                if hd is None:
                    out.append((g, k, v, h))
                    continue
                if hd.name:
                    self.setvar(hd.name, Opaque("exception"))
                for (g2, k2, v2, h2) in self.block(hd.body):
                    out.append((ir.and_(g, g2), k2, v2, h2))
            elif k == "next" and s.orelse:
                self.heap = h
                for (g2, k2, v2, h2) in self.block(s.orelse):
                    out.append((ir.and_(g, g2), k2, v2, h2))
            else:
                out.append((g, k, v, h))
        if s.finalbody:
            fin = []
            for (g, k, v, h) in out:
                self.heap = h
                for (g2, k2, v2, h2) in self.block(s.finalbody):
                    if k2 == "next":
                        fin.append((ir.and_(g, g2), k, v, h2))
                    else:
                        fin.append((ir.and_(g, g2), k2, v2, h2))
            out = fin
        return out

    def pick_handler(self, handlers, msg):
        et = str(msg).split(":")[0]
        hier = {"UnboundLocalError": {"NameError"}, "IndexError": {"LookupError"}, "KeyError": {"LookupError"},
                "ZeroDivisionError": {"ArithmeticError"}, "UFuncTypeError": {"TypeError"},
                "ModuleNotFoundError": {"ImportError"}}
        ok = {et, "Exception", "BaseException"} | hier.get(et, set())
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
                if nm in ok:
                    return h
        return None

    def s_Match(self, s):
        v = self.ev(s.subject)

        def go(cases):
            if not cases:
                return self.block([])
            c = cases[0]
            p = self.pattern(c.pattern, v)
            if p is True and c.guard is not None:
                p = self.truth(self.ev(c.guard))
            if p is True:
                return self.block(c.body)
            if p is False:
                return go(cases[1:])
            if p is None:
                self.top("match pattern")
                return go(cases[1:])
            return self.fork(p, lambda: self.block(c.body), lambda: go(cases[1:]))
        return go(s.cases)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), v, p.value))
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                x = self.pattern(q, v)
                if x is True:
                    return True
                if x is not False:
                    r = x
            return r
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                r = self.pattern(p.pattern, v)
            else:
                r = True
            if p.name and r is not False:
                self.setvar(p.name, v)
            return r
        return None

    # -------------------------------------------------------------- truth
    def truth(self, v):
        """-> True / False / Node (undecided)"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, complex)):
            return bool(v)
        if isinstance(v, Node):
            if v.kind != "b":
                if v.op == "top":
                    return v if v.kind == "b" else ir.mk("ne0", (v,))
                v = ir.not_(ir.eq(v, ir.const(0)))
            d = self.decide(v)
            return v if d is None else d
        if isinstance(v, Arr):
            if v.size == 1:
                return self.truth(self.elems(v)[0])
            if v.series or v.size != 1:
                raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Lst, Dct, SetV)):
            return len(self.heap[v.id]) > 0
        if isinstance(v, Phi):
            a, b = self.truth(v.a), self.truth(v.b)
            a = ir.const(a) if isinstance(a, bool) else a
            b = ir.const(b) if isinstance(b, bool) else b
            r = ir.or_(ir.and_(v.cond, a), ir.and_(ir.not_(v.cond), b))
            d = self.decide(r)
            return r if d is None else d
        if isinstance(v, Top):
            return ir.mk("topb", (), ("tb", self.freshid()))
        if isinstance(v, RaiseV):
            raise PyRaise("Raised", v.msg)
        if v is UNDEF:
            raise PyRaise("UnboundLocalError", "")
        return True

    def freshid(self):
        self.nid += 1
        return self.nid

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.top("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return ir.const(v)
        if isinstance(v, complex):
            return ir.const(v)
        if v is Ellipsis:
            return Native("builtins.Ellipsis")
        return v

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is UNDEF:
            raise PyRaise("UnboundLocalError", e.id)
        return v

    def e_Tuple(self, e):
        return tuple(self.evseq(e.elts))

    def e_List(self, e):
        return Lst(self.alloc(tuple(self.evseq(e.elts))))

    def e_Set(self, e):
        return SetV(self.alloc(tuple(self.evseq(e.elts))))

    def evseq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value))
                if it is None:
                    out.append(self.top("starred"))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, Dct):
                    d.update(self.heap[o.id])
                else:
                    self.top("dict unpack")
            else:
                kk = self.ev(k)
                d[self.hkey(kk)] = self.ev(v)
        return Dct(self.alloc(d))

    def hkey(self, k):
        """hashable dictionary key"""
        if isinstance(k, Node):
            c = ir.cval(k)
            if c is not None:
                return int(c) if c.denominator == 1 else ("n", k.id)
            return ("n", k.id)
        if isinstance(k, tuple):
            return ("t",) + tuple(self.hkey(x) for x in k)
        if isinstance(k, (str, int, bool, float)) or k is None:
            return k
        if isinstance(k, (Lst, Dct, SetV)):
            raise PyRaise("TypeError", "unhashable")
        if isinstance(k, Arr):
            raise PyRaise("TypeError", "unhashable type: 'numpy.ndarray'")
        if isinstance(k, Native):
            return ("nat", k.name)
        return ("obj", id(k))

    def unkey(self, k):
        if isinstance(k, tuple) and k and k[0] == "n":
            return ir._nodes[k[1]]
        if isinstance(k, tuple) and k and k[0] == "t":
            return tuple(self.unkey(x) for x in k[1:])
        if isinstance(k, tuple):
            return self.top("key")
        return k

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(v, Phi):
            return self.lift1(lambda x: self.unop(op, x), v)
        if isinstance(op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else ir.not_(c)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.USub):
            if isinstance(v, (bool, int)):
                return -v
            return npmodel.ew(self, ir.neg, v)
        if isinstance(op, ast.Invert):
            if isinstance(v, (bool, int)):
                return ~v
            return npmodel.ew(self, lambda a: ir.not_(a) if a.kind == "b" else self.topn("~int"), v)
        return self.top("unop")

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if c is True:
                return go(i + 1) if isand else v
            if c is False:
                return v if isand else go(i + 1)
            h0 = self.heap
            self.heap = dict(h0)
            try:
                r = go(i + 1)
            except PyRaise as ex:
                r = RaiseV(str(ex))
            h1 = self.heap
            self.heap = self.merge_heap(c, h1, h0) if isand else self.merge_heap(c, h0, h1)
            if isinstance(r, (bool, Node, Arr)) and not isinstance(r, RaiseV):
                try:
                    rt = self.truth(r)
                except PyRaise as ex:
                    rt = None
                if rt is not None and (isinstance(v, bool) or (isinstance(v, Node) and v.kind == "b")
                                       or (isinstance(v, Arr))):
                    rt = ir.const(rt) if isinstance(rt, bool) else rt
                    return ir.and_(c, rt) if isand else ir.or_(c, rt)
            return self.merge(c, r, v) if isand else self.merge(c, v, r)
        return go(0)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if c is True:
            return self.ev(e.body)
        if c is False:
            return self.ev(e.orelse)
        return self.either(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def either(self, c, fa, fb):
        h0 = self.heap
        self.heap = dict(h0)
        try:
            a = fa()
        except PyRaise as ex:
            a = RaiseV(str(ex))
        ha = self.heap
        self.heap = dict(h0)
        try:
            b = fb()
        except PyRaise as ex:
            b = RaiseV(str(ex))
        hb = self.heap
        self.heap = self.merge_heap(c, ha, hb)
        return self.merge(c, a, b)

    def lift1(self, f, v):
        return self.either(v.cond, lambda: f(v.a), lambda: f(v.b))

    def e_Lambda(self, e):
        return self.mkfunc(e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.setvar(e.target.id, v)
        return v

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                t = self.truth(res)
                if t is False:
                    return False
                if t is True:
                    res = c
                else:
                    ct = self.truth(c)
                    res = ir.and_(t, ir.const(ct) if isinstance(ct, bool) else ct)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Phi) and not isinstance(op, (ast.Is, ast.IsNot)) or isinstance(a, Phi):
            return self.lift1(lambda x: self.compare(op, x, b), a)
        if isinstance(b, Phi):
            return self.lift1(lambda x: self.compare(op, a, x), b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identity(a, b)
            if isinstance(op, ast.IsNot):
                r = (not r) if isinstance(r, bool) else r
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                if isinstance(r, bool):
                    return not r
                return ir.not_(r) if isinstance(r, Node) else r
            return r
        if isinstance(a, RaiseV) or isinstance(b, RaiseV):
            raise PyRaise("Raised", "")
        if isinstance(a, Top) or isinstance(b, Top):
            o = b if isinstance(a, Top) else a
            if isinstance(o, Arr):
                return npmodel.ew(self, lambda x, y: self.topn("cmp"), a, b)
            return self.top("compare")
        arrish = isinstance(a, (Arr, Masked)) or isinstance(b, (Arr, Masked))
        if isinstance(op, (ast.Eq, ast.NotEq)) and not arrish:
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq):
                if isinstance(r, bool):
                    return not r
                return ir.not_(r) if isinstance(r, Node) else r
            return r
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if arrish and (isinstance(a, str) or isinstance(b, str) or a is None or b is None):
            if isinstance(op, ast.Eq):
                return self.newarr([ir.FALSE] * (a if isinstance(a, Arr) else b).size, (a if isinstance(a, Arr) else b).shape)
            if isinstance(op, ast.NotEq):
                return self.newarr([ir.TRUE] * (a if isinstance(a, Arr) else b).size, (a if isinstance(a, Arr) else b).shape)
            raise PyRaise("TypeError", "comparison")
        f = {ast.Lt: ir.lt, ast.LtE: ir.le, ast.Gt: lambda x, y: ir.lt(y, x), ast.GtE: lambda x, y: ir.le(y, x),
             ast.Eq: ir.eq, ast.NotEq: ir.ne}[type(op)]
        if not arrish:
            if not (isnum(a) and isnum(b)):
                if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
                    return self.top("compare opaque")
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return self.top("tuple order")
                raise PyRaise("TypeError", "unorderable %s %s" % (type(a).__name__, type(b).__name__))
        r = npmodel.ew(self, f, a, b)
        if isinstance(r, Node):
            if r is ir.TRUE:
                return True
            if r is ir.FALSE:
                return False
        return r

    def identity(self, a, b):
        if a is None or b is None:
            if isinstance(a, Top) or isinstance(b, Top):
                return self.top("is None")
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, Top) or isinstance(b, Top):
                return self.top("is")
            return False
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top("is")
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return self.same(a, b)

    def equal(self, a, b):
        if isnum(a) and isnum(b):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return a == b
            r = ir.eq(self.N(a), self.N(b))
            return True if r is ir.TRUE else False if r is ir.FALSE else r
        if isinstance(a, Top) or isinstance(b, Top):
            return self.top("==")
        if isinstance(a, Opaque) and a.what.startswith("dtype:") or isinstance(b, Opaque) and b.what.startswith("dtype:"):
            x, y = npmodel.dtype_name(self, a), npmodel.dtype_name(self, b)
            if x is None or y is None:
                return False if isinstance(a, (str, Native)) or isinstance(b, (str, Native)) or a is None or b is None else self.top("dtype ==")
            return x == y
        if isinstance(a, (Lst, tuple)) and isinstance(b, (Lst, tuple)):
            if type(a) is not type(b):
                return False
            x = self.heap[a.id] if isinstance(a, Lst) else a
            y = self.heap[b.id] if isinstance(b, Lst) else b
            if len(x) != len(y):
                return False
            r = ir.TRUE
            for p, q in zip(x, y):
                c = self.compare(ast.Eq(), p, q)
                t = self.truth(c)
                if t is False:
                    return False
                r = ir.and_(r, ir.const(t) if isinstance(t, bool) else t)
            return True if r is ir.TRUE else r
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return type(a) is type(b) and a == b
        return self.same(a, b)

    def contains(self, coll, x):
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        if isinstance(coll, Dct):
            k = self.hkey(x)
            d = self.heap[coll.id]
            if k in d:
                v = d[k]
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return ir.not_(v.cond) if v.a is UNDEF else v.cond
                if isinstance(v, Node) and v.op == "sel":
                    if v.args[1].op == "raise":
                        return ir.not_(v.args[0])
                    if v.args[2].op == "raise":
                        return v.args[0]
                return True
            r = ir.FALSE
            for kk in d:
                t = self.truth(self.compare(ast.Eq(), self.unkey(kk), x))
                if t is True:
                    return True
                if t is not False:
                    r = ir.or_(r, t)
            return False if r is ir.FALSE else r
        if isinstance(coll, DF):
            return x in self.heap[coll.id]["cols"]
        if isinstance(coll, Native):
            npmodel.ambient(self, coll.name)
            return self.top("in %s" % coll.name)
        if isinstance(coll, Top):
            return self.top("in")
        it = self.iterate(coll)
        if it is None:
            return self.top("in")
        r = ir.FALSE
        for y in it:
            t = self.truth(self.compare(ast.Eq(), y, x))
            if t is True:
                return True
            if t is not False:
                r = ir.or_(r, t)
        return False if r is ir.FALSE else r

    def e_JoinedStr(self, e):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                x = self.ev(v.value)
                t = npmodel.numstr(self, x) if v.format_spec is None and v.conversion == -1 else None
                if v.format_spec is not None and v.conversion == -1:
                    t = npmodel.fmtstr(self, self.ev(v.format_spec), x)
                if not isinstance(t, str):
                    return Opaque("fstring")
                out += t
        return out

    def e_FormattedValue(self, e):
        return Opaque("fstring")

    def e_Starred(self, e):
        return self.ev(e.value)

    def comp(self, e, gens, emit):
        """comprehension in its own env"""
        fr = self.frames[-1]
        env = Env()
        env.parent = fr.env
        eid = self.alloc(env)
        nf = Frame(eid, fr.func, fr.module)
        nf.cls = None
        nf.globals_ = fr.globals_
        nf.yields = fr.yields
        self.frames.append(nf)
        try:
            def go(i):
                if i == len(gens):
                    emit()
                    return True
                g = gens[i]
                it = self.iterate(self.ev(g.iter))
                if it is None:
                    return False
                for x in it:
                    self.assign(g.target, x)
                    ok = True
                    for c in g.ifs:
                        t = self.truth(self.ev(c))
                        if t is False:
                            ok = False
                            break
                        if t is not True:
                            return False
                    if ok and not go(i + 1):
                        return False
                return True
            return go(0)
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        out = []
        if not self.comp(e, e.generators, lambda: out.append(self.ev(e.elt))):
            return self.top("comprehension")
        return Lst(self.alloc(tuple(out)))

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        r = self.e_ListComp(e)
        return r if isinstance(r, Top) else SetV(self.alloc(self.heap[r.id]))

    def e_DictComp(self, e):
        d = {}

        def emit():
            k = self.hkey(self.ev(e.key))
            d[k] = self.ev(e.value)
        if not self.comp(e, e.generators, emit):
            return self.top("comprehension")
        return Dct(self.alloc(d))

    def e_Yield(self, e):
        v = None if e.value is None else self.ev(e.value)
        fr = self.frames[-1]
        if fr.yields is None:
            return self.top("yield")
        fr.yields.append(v)
        return None

    def e_YieldFrom(self, e):
        it = self.iterate(self.ev(e.value))
        fr = self.frames[-1]
        if it is None or fr.yields is None:
            return self.top("yield from")
        fr.yields.extend(it)
        return None

    def e_Await(self, e):
        return self.top("await")

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def evslice(self, s):
        return self.ev(s)

    def e_Slice(self, s):
        f = lambda x: None if x is None else self.ev(x)
        return SliceV(f(s.lower), f(s.upper), f(s.step))

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.evslice(e.slice)
        return self.getitem(o, k)

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        """-> list of values, or None when unknown"""
        if isinstance(v, Phi):
            v = self.flat(v)
        if isinstance(v, (tuple, list, range)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (Lst, SetV)):
            return list(self.heap[v.id])
        if isinstance(v, Dct):
            return [self.unkey(k) for k in self.heap[v.id]]
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            if v.ndim == 1:
                return self.elems(v)
            return [self.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, DF):
            return list(self.heap[v.id]["cols"])
        if isinstance(v, Phi):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if a is not None and b is not None and len(a) == len(b):
                return [self.merge(v.cond, x, y) for x, y in zip(a, b)]
            return None
        if isinstance(v, Top):
            return None
        if isinstance(v, Opaque):
            return None
        if isinstance(v, (Node, int, float)) or v is None:
            if isinstance(v, Node) and v.op == "top":
                return None
            raise PyRaise("TypeError", "object is not iterable")
        if isinstance(v, RaiseV):
            raise PyRaise("Raised", v.msg)
        return None

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if isinstance(a, RaiseV) or isinstance(b, RaiseV):
            raise PyRaise("Raised", (a if isinstance(a, RaiseV) else b).msg)
        if isinstance(a, Phi):
            a = self.flat(a)
        if isinstance(b, Phi):
            b = self.flat(b)
        if isinstance(a, Phi):
            return self.lift1(lambda x: self.binop(op, x, b), a)
        if isinstance(b, Phi):
            return self.lift1(lambda x: self.binop(op, a, x), b)
        if a is UNDEF or b is UNDEF:
            raise PyRaise("UnboundLocalError", "")
        t = type(op)
        # pure python
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a_, b_ = a, b
            if t is ast.Add:
                return a_ + b_
            if t is ast.Sub:
                return a_ - b_
            if t is ast.Mult:
                return a_ * b_
            if t in (ast.Div, ast.FloorDiv, ast.Mod) and b_ == 0:
                raise PyRaise("ZeroDivisionError", "")
            if t is ast.Div:
                return ir.const(Fraction(a_, b_))
            if t is ast.FloorDiv:
                return a_ // b_
            if t is ast.Mod:
                return a_ % b_
            if t is ast.Pow:
                if b_ >= 0:
                    return a_ ** b_ if b_ < 400 else self.topn("pow")
                if a_ == 0:
                    raise PyRaise("ZeroDivisionError", "")
                return ir.const(Fraction(a_) ** b_)
            if t is ast.BitAnd:
                return a_ & b_
            if t is ast.BitOr:
                return a_ | b_
            if t is ast.BitXor:
                return a_ ^ b_
            if t is ast.LShift:
                return a_ << b_
            if t is ast.RShift:
                return a_ >> b_
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Opaque) or isinstance(b, Opaque):
            if t is ast.Add and isinstance(a, str) and isinstance(b, str):
                return a + b
            if t is ast.Mod and isinstance(a, str):
                xs = b if isinstance(b, tuple) else (b,)
                xs = tuple(npmodel.pynum(self, x) for x in xs)
                if all(type(x) in (int, str, float) for x in xs):
                    try:
                        return a % xs
                    except (TypeError, ValueError):
                        pass
                return Opaque("string")
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque("expr")
            if t is ast.Mult and isinstance(b, int):
                return a * b
            raise PyRaise("TypeError", "string operand")
        if isinstance(a, (Lst, tuple)) or isinstance(b, (Lst, tuple)):
            la, lb = isinstance(a, (Lst, tuple)), isinstance(b, (Lst, tuple))
            if la and lb:
                if t is ast.Add and type(a) is type(b):
                    x = self.heap[a.id] if isinstance(a, Lst) else a
                    y = self.heap[b.id] if isinstance(b, Lst) else b
                    return Lst(self.alloc(x + y)) if isinstance(a, Lst) else x + y
                raise PyRaise("TypeError", "unsupported operand lists")
            l, o = (a, b) if la else (b, a)
            if isinstance(o, (int, bool)) and t is ast.Mult:
                x = self.heap[l.id] if isinstance(l, Lst) else l
                return Lst(self.alloc(x * o)) if isinstance(l, Lst) else x * o
            if isinstance(o, Node) and o.op in ("sym", "const"):
                # python float and list
                raise PyRaise("TypeError", "unsupported operand list and float")
            if isinstance(o, (int, bool, float)) or o is None:
                raise PyRaise("TypeError", "unsupported operand list and number")
        if a is None or b is None:
            raise PyRaise("TypeError", "unsupported operand None")
        if isinstance(a, (Func, Bound, ClassV, Native, Dct, ModuleV)) or isinstance(b, (Func, Bound, ClassV, Native, Dct, ModuleV)):
            if isinstance(a, Native) and a.name.startswith("builtins.") or isinstance(b, Native):
                return self.top("binop")
            raise PyRaise("TypeError", "unsupported operand")
        if t is ast.MatMult:
            return npmodel.dot(self, a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            nm = DUNDER.get(t)
            if nm and isinstance(a, Inst):
                r = self.class_lookup(a.cls, "__%s__" % nm)
                if r:
                    return self.call(Bound(r[0], a), [b], {})
            if nm and isinstance(b, Inst):
                r = self.class_lookup(b.cls, "__r%s__" % nm)
                if r:
                    return self.call(Bound(r[0], b), [a], {})
            return self.top("operator overloading")
        if isinstance(a, DF) or isinstance(b, DF):
            return self.top("DataFrame arithmetic")
        f = OPS.get(t)
        if f is None:
            return self.top("operator %s" % t.__name__)
        if t is ast.Div and isnum(a) and isnum(b):
            nb = self.N(b)
            na = self.N(a)
            if nb.op == "const" and nb.data[0] == 0 and pyfloat(na):
                raise PyRaise("ZeroDivisionError", "float division by zero")
        if t is ast.Pow:
            self.intpow(a, b)
        if t is ast.Pow and isnum(a) and isnum(b):
            na, nb = self.N(a), self.N(b)
            if na.op == "const" and na.data[0] == 0 and nb.op == "const" and nb.data[0].real < 0:
                raise PyRaise("ZeroDivisionError", "zero cannot be raised to a negative power")
        return npmodel.ew(self, f, a, b)

    def intpow(self, a, b):
        """numpy refuses integer arrays to a negative integer power"""
        if isinstance(a, Arr) and a.size and self.dtype(a) == "i" and (isinstance(b, Node) or isinstance(b, int) and not isinstance(b, bool)):
            n = self.N(b)
            if n.op == "const" and n.kind == "i" and n.data[0].real < 0:
                raise PyRaise("ValueError", "Integers to negative integer powers are not allowed")

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Phi):
            f = self.flat(o)
            if isinstance(f, Phi):
                return self.lift1(lambda x: self.getattr(x, name), f)
            o = f if isinstance(f, (Arr, Node)) and name not in ("fill", "sort", "resize", "itemset", "put") else o
            if isinstance(o, Phi):
                return Method(o, name)
        if isinstance(o, ModuleV):
            env = self.heap[o.env]
            if name in env:
                return env[name]
            sub = self.load(o.name + "." + name) if o.path.endswith("__init__.py") else None
            if sub is not None:
                return sub
            raise PyRaise("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Native):
            return npmodel.native_attr(self, o, name)
        if isinstance(o, ClassV):
            v = self.class_lookup(o, name)
            if v is None:
                if name == "__name__":
                    return o.name
                if name in ("__doc__", "__module__", "__dict__", "__qualname__"):
                    return Opaque(name)
                raise PyRaise("AttributeError", "class %s has no attribute %s" % (o.name, name))
            v = v[0]
            if isinstance(v, Func) and v.kind == "classmethod":
                return Bound(v, o)
            return v
        if isinstance(o, Inst):
            d = self.heap[o.id]
            if name in d:
                v = d[name]
                if v is UNDEF:
                    raise PyRaise("AttributeError", name)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return Dct(o.id) if not any(v is UNDEF for v in d.values()) else self.top("__dict__")
            r = self.class_lookup(o.cls, name)
            if r is None:
                raise PyRaise("AttributeError", "%s object has no attribute %s" % (o.cls.name, name))
            v = r[0]
            if isinstance(v, Func):
                if v.kind == "staticmethod":
                    return v
                if v.kind == "classmethod":
                    return Bound(v, o.cls)
                if v.kind == "property":
                    return self.call(Bound(v, o), [], {})
                return Bound(v, o)
            return v
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                r = self.class_lookup(b, name)
                if r is not None:
                    return Bound(r[0], o.self_) if isinstance(r[0], Func) else r[0]
            return Method(Opaque("super"), name)
        if isinstance(o, Func):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return Opaque("doc")
            if o.attrs is not None:
                d = self.heap[o.attrs]
                if name in d:
                    return d[name]
            raise PyRaise("AttributeError", name)
        if isinstance(o, Top):
            return Top(o.reason)
        if isinstance(o, Opaque):
            if o.what in npmodel.DTI:
                return npmodel.dtype_attr(self, o, name)
            return Opaque(o.what + "." + name)
        if isinstance(o, RaiseV):
            raise PyRaise("Raised", o.msg)
        if o is None:
            raise PyRaise("AttributeError", "None has no attribute %s" % name)
        return npmodel.value_attr(self, o, name)

    def class_lookup(self, cls, name):
        env = self.heap[cls.id]
        if name in env:
            return (env[name],)
        for b in cls.bases:
            r = self.class_lookup(b, name)
            if r is not None:
                return r
        return None

    def setattr(self, o, name, v):
        if isinstance(o, Phi):
            self.either(o.cond, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Inst):
            d = dict(self.heap[o.id])
            d[name] = v
            self.heap[o.id] = d
        elif isinstance(o, ClassV):
            e = self.heap[o.id].copy()
            e[name] = v
            self.heap[o.id] = e
        elif isinstance(o, ModuleV):
            e = self.heap[o.env].copy()
            e[name] = v
            self.heap[o.env] = e
        elif isinstance(o, Func):
            if o.attrs is None:
                o.attrs = self.alloc({})
            d = dict(self.heap.get(o.attrs, {}))
            d[name] = v
            self.heap[o.attrs] = d
            self.effect("state", "attribute %s of function %s assigned" % (name, o.qual))
        elif isinstance(o, DF):
            if name in self.heap[o.id]["cols"]:
                npmodel.df_setcol(self, o, name, v)
            elif name == "columns":
                npmodel.df_setcolumns(self, o, v)
            else:
                self.top("DataFrame attribute")
        elif isinstance(o, Arr) and name == "shape":
            self.top("shape assignment")
        elif isinstance(o, Native):
            self.effect("state", "attribute %s.%s assigned" % (o.name, name))
        elif isinstance(o, (Opaque, Top)):
            pass
        elif isinstance(o, Arr) and name == "flat":
            w = npmodel.asarr(self, v)
            es = self.elems(w) if isinstance(w, Arr) else [self.N(w)]
            self.write_buf(o, range(o.size), [es[i % len(es)] for i in range(o.size)])
        elif isinstance(o, Arr) and name == "real" and self.dtype(o) != "c":
            npmodel.setitem(self, o, SliceV(None, None, None) if o.ndim else (), v)
        elif isinstance(o, Arr):
            self.top("array attribute assignment")
        else:
            self.top("setattr")

    def getitem(self, o, k):
        return npmodel.getitem(self, o, k)

    def setitem(self, o, k, v):
        return npmodel.setitem(self, o, k, v)

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.flat(self.ev(a.value))
                it = self.iterate(v)
                if it is None:
                    return self.top("star args")
                args.extend(it)
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Dct):
                    for kk, vv in self.heap[v.id].items():
                        kw[kk] = vv
                elif isinstance(v, Top):
                    return self.top("kwargs")
                else:
                    return self.top("kwargs")
            else:
                kw[k.arg] = v
        self.loc = (self.frames[-1].module.name, e.lineno)
        self.callsites += 1
        if isinstance(f, Native) and f.name == "builtins.super" and not args:
            fr = self.frames[-1]
            self_ = None
            if fr.func is not None and fr.func.node.args.args:
                self_ = self.heap[fr.env].get(fr.func.node.args.args[0].arg)
            return SuperV(fr.func.cls, self_)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Func):
            if f.kind == "property":
                return self.top("property call")
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func if f.func.kind != "property" else self._plain(f.func), [f.self_] + list(args), kw)
        if isinstance(f, PartialV):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k)
        if isinstance(f, Native):
            return npmodel.call_native(self, f.name, args, kw)
        if isinstance(f, Method):
            if isinstance(f.obj, Phi):
                return self.either(f.obj.cond, lambda: self.call(self.getattr(f.obj.a, f.name), args, kw),
                                   lambda: self.call(self.getattr(f.obj.b, f.name), args, kw))
            return npmodel.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, ClassV):
            o = Inst(self.alloc({}), f)
            init = self.class_lookup(f, "__init__")
            if init is not None:
                self.call(Bound(init[0], o), args, kw)
            elif args or kw:
                env = self.heap[f.id]
                if args or kw:
                    raise PyRaise("TypeError", "%s() takes no arguments" % f.name)
            return o
        if isinstance(f, CachedV):
            key = tuple(self.hkey(self.flat(a)) for a in args) + tuple((k, self.hkey(self.flat(v))) for k, v in kw.items())
            m = f.memo.get(key)
            if m is not None and m[0] is self.session and self.alive(m[1]):
                return m[1]
            r = self.call(f.func, args, kw)
            f.memo[key] = (self.session, r)
            return r
        if isinstance(f, Vectorized):
            return npmodel.vectorized(self, f.func, args, kw)
        if isinstance(f, Phi):
            return self.lift1(lambda x: self.call(x, args, kw), f)
        if isinstance(f, Top):
            return Top(f.reason)
        if isinstance(f, Opaque):
            return npmodel.call_opaque(self, f, args, kw)
        if isinstance(f, Inst):
            r = self.class_lookup(f.cls, "__call__")
            if r is not None:
                return self.call(Bound(r[0], f), args, kw)
        if isinstance(f, RaiseV):
            raise PyRaise("Raised", f.msg)
        raise PyRaise("TypeError", "object is not callable")

    def _plain(self, f):
        g = Func(f.node, f.module, f.env, f.cls, f.name, f.defaults, f.kwdefaults)
        g.isgen = f.isgen
        return g

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        extra = list(args[len(pos):])
        for n, v in zip(pos, args):
            vals[n] = v
        if extra and a.vararg is None:
            raise PyRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        for n in [x.arg for x in a.args + a.kwonlyargs]:
            if n in kw:
                if n in vals:
                    raise PyRaise("TypeError", "%s() got multiple values for argument %s" % (f.name, n))
                vals[n] = kw.pop(n)
        if kw and a.kwarg is None:
            raise PyRaise("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, sorted(map(str, kw))[0]))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = Dct(self.alloc(dict(kw)))
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:] if nd else [], f.defaults):
            if n not in vals:
                vals[n] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = d
            elif x.arg not in vals and a.kw_defaults[a.kwonlyargs.index(x)] is not None:
                vals[x.arg] = d
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in vals]
        if missing:
            raise PyRaise("TypeError", "%s() missing required argument %s" % (f.name, missing[0]))
        return vals

    def call_func(self, f, args, kw):
        if self.depth > MAXDEPTH:
            return self.top("recursion")
        vals = self.bind(f, args, kw)
        self.called.add((f.module.name, f.qual))
        env = Env(vals)
        env.parent = f.env
        eid = self.alloc(env)
        fr = Frame(eid, f, f.module)
        fr.localnames = localnames(f.node)
        if f.isgen:
            fr.yields = []
        self.frames.append(fr)
        self.depth += 1
        oldloc = self.loc
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            leaves = self.block(f.node.body)
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = oldloc
        if f.isgen:
            self.heap = self.merge_leaves(leaves)[1]
            return Lst(self.alloc(tuple(fr.yields)))
        return self.fold_returns(leaves)

    def fold_returns(self, leaves):
        rets = []
        for (g, k, v, h) in leaves:
            if g is ir.FALSE:
                continue
            if k == "next":
                rets.append((g, "ret", None, h))
            elif k == "ret":
                rets.append((g, "ret", v, h))
            elif k == "raise":
                rets.append((g, "raise", RaiseV(v), h))
            else:
                rets.append((g, "ret", None, h))
        if not rets:
            raise PyRaise("Unreachable", "")
        if all(r[1] == "raise" for r in rets):
            self.heap = self.merge_leaves(rets)[1]
            raise PyRaise(str(rets[0][2].msg).split(":")[0], ":".join(str(rets[0][2].msg).split(":")[1:]).strip())
        v, h = self.merge_leaves(rets)
        self.heap = h
        return v


def _fdiv(a, b):
    if npmodel.surely_complex(a) or npmodel.surely_complex(b):
        raise PyRaise("TypeError", "no floor of a complex number")
    return ir.fn("floor", ir.div(a, b))


def _mod(a, b):
    if npmodel.surely_complex(a) or npmodel.surely_complex(b):
        raise PyRaise("TypeError", "no remainder of a complex number")
    return ir.sub(a, ir.mul(b, ir.fn("floor", ir.div(a, b))))


def _band(a, b):
    if a.kind == "b" and b.kind == "b":
        return ir.and_(a, b)
    return ir.top("bitand")


def _bor(a, b):
    if a.kind == "b" and b.kind == "b":
        return ir.or_(a, b)
    return ir.top("bitor")


def _bxor(a, b):
    if a.kind == "b" and b.kind == "b":
        return ir.or_(ir.and_(a, ir.not_(b)), ir.and_(ir.not_(a), b))
    return ir.top("bitxor")


DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.MatMult: "matmul",
          ast.FloorDiv: "floordiv", ast.Mod: "mod"}
OPS = {ast.Add: ir.add, ast.Sub: ir.sub, ast.Mult: ir.mul, ast.Div: ir.div, ast.Pow: ir.pow_,
       ast.FloorDiv: _fdiv, ast.Mod: _mod, ast.BitAnd: _band, ast.BitOr: _bor, ast.BitXor: _bxor}


def walk_local(fn):
    """nodes of a function body, not descending into nested functions"""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            stack.extend(ast.iter_child_nodes(n))


_ig = {}


def isgen(s):
    r = _ig.get(id(s))
    if r is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(s))
        _ig[id(s)] = (r, s)
        return r
    return r[0]


_ln = {}


def localnames(node):
    k = id(node)
    if k not in _ln:
        s = set()
        g = set()
        if not isinstance(node, ast.Lambda):
            comp = {}
            stores = {}
            for n in walk_local(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                    stores[n.id] = stores.get(n.id, 0) + 1
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                    stores[n.name] = 99
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    g.update(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        nm = (a.asname or a.name).split(".")[0]
                        s.add(nm)
                        stores[nm] = 99
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                    stores[n.name] = 99
                elif isinstance(n, ast.comprehension):
                    for t in ast.walk(n.target):
                        if isinstance(t, ast.Name):
                            comp[t.id] = comp.get(t.id, 0) + 1
            # names stored only as comprehension targets are not locals
            for c, k2 in comp.items():
                if stores.get(c, 0) == k2:
                    s.discard(c)
        _ln[k] = frozenset(s - g)
        _ln[("keep", k)] = node
    return _ln[k]
