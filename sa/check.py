"""Obligation driver.

Spec files (specs/*.py) are parsed and abstractly interpreted by the same front
end as the repository; nothing in them or in the repository is executed.  Each
spec function states relations between values of the repository's functions
over symbolic parameters that range over the intervals written in its
annotations.  Every relation becomes obligations on value-graph nodes which are
discharged by value numbering, or refuted by disjoint interval enclosures.
"""
import ast
import json
import os
import random
import re
import sys
import time
from fractions import Fraction

from . import front, interval, ir, npmodel, values, vn
from . import hp
from .values import (Arr, Bound, ClassV, DF, Dct, Func, Inst, Lst, Masked, Native, Opaque, Phi, PyRaise, RaiseV, Top,
                     UNDEF, SetV)

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, "specs")
PKG = "rockphypy"


# calls on a figure that draw no data
IDLE = {"subplots", "subplot", "figure", "gca", "gcf", "set_size_inches", "set_xlabel", "set_ylabel", "set_title", "set_xlim", "set_ylim", "set_label",
        "xlabel", "ylabel", "xlim", "ylim", "title", "grid", "legend", "colorbar", "tight_layout", "show", "savefig", "axis", "tick_params", "suptitle",
        "plot", "scatter", "pcolormesh", "contour", "kde2d", "step", "invert_yaxis", "clim", "set", "set_figwidth", "set_figheight", "axes", "text", "annotate",
        "register", "register_cmap", "from_list", "warn", "print", "close", "minorticks_on", "locator_params", "xticks", "yticks", "set_xticks", "set_yticks"}


class Undecided(Exception):
    pass


class Claim:
    """relation between flattened pairs"""

    def __init__(self, kind, label, pairs, opts, where):
        self.kind = kind        # eq le differs fact
        self.label = label
        self.pairs = pairs      # [(a, b, sub label)]
        self.opts = opts
        self.where = where
        self.undecided = None
        self.bad = None         # structural mismatch text


class Ob:
    def __init__(self, prop, name, title):
        self.prop = prop
        self.name = name
        self.title = title
        self.claims = []
        self.ranges = {}
        self.ints = set()
        self.called = set()
        self.sites = 0
        self.tops = []
        self.error = None
        self.raised = None
        self.wide = None
        self.results = []


def loc_of(modname, qual):
    """file:line of a repository function"""
    rel = modname.replace(".", "/") + ".py"
    path = os.path.join(REPO, rel)
    if not os.path.exists(path):
        path = os.path.join(REPO, modname.replace(".", "/"), "__init__.py")
    t = front._PARSED.get(path)
    if t is None:
        return rel
    want = qual.split(".")
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef) and len(want) == 2 and n.name == want[0]:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == want[1]:
                    return "%s:%d" % (os.path.relpath(path, REPO), m.lineno)
        if isinstance(n, ast.FunctionDef) and len(want) == 1 and n.name == want[0]:
            return "%s:%d" % (os.path.relpath(path, REPO), n.lineno)
    return os.path.relpath(path, REPO)


RNG = re.compile(r"^\s*(?P<flags>(?:int|sorted)\s+)?(?P<lo>[-+0-9.eE]+)\s*\.\.\s*(?P<hi>[-+0-9.eE]+)\s*(?P<dims>\[[0-9,]+\])?\s*(?P<tail>list|series|tuple)?\s*$")


class Session:
    def __init__(self):
        extra = {}
        for f in sorted(os.listdir(SPECS)):
            if f.endswith(".py"):
                extra["specs." + f[:-3]] = os.path.join(SPECS, f)
        self.I = front.Interp(REPO, PKG, extra)
        I = self.I
        I.load(PKG)
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, PKG)) if f.endswith(".py") and f != "__init__.py")
        self.mods = mods
        for m in mods:
            I.load(PKG + "." + m)
        self.load_effects = list(I.effects)
        self.load_tops = list(I.tops)
        self.snap()

    def snap(self):
        I = self.I
        self._heap = dict(I.heap)
        self._nid = I.nid
        self._mods = dict(I.modules)

    def reset(self):
        I = self.I
        I.heap = dict(self._heap)
        I.nid = self._nid
        I.modules = dict(self._mods)
        I.frames = []
        I.depth = 0
        I.steps = 0
        I.effects = []
        I.tops = []
        I.session = object()
        I.called = set()
        I.callsites = 0
        I.nondet = 0
        I.nest = 0
        I.opaque_calls = []
        I.raise_at = {}
        I.pyfloat = set()
        I.native_calls = {}
        I.setranges({})

    def mkparam(self, name, spec, ob, wide=None):
        m = RNG.match(spec)
        if not m:
            raise ValueError("range %r of %s" % (spec, name))
        lo, hi = Fraction(m["lo"]), Fraction(m["hi"])
        if wide:
            lo, hi = Fraction(wide[0]), Fraction(wide[1])
        kind = "f"
        if m["flags"] and m["flags"].strip() == "int":
            kind = "i"

        def one(nm):
            ob.ranges[nm] = interval_of(lo, hi)
            if kind == "i":
                ob.ints.add(nm)
            return ir.sym(nm, kind)
        if not m["dims"]:
            self.I.pyfloat.add(name)
            return one(name)
        dims = tuple(int(x) for x in m["dims"][1:-1].split(","))
        n = 1
        for d in dims:
            n *= d
        es = [one("%s_%d" % (name, k)) for k in range(n)]
        if m["tail"] == "tuple":
            return tuple(es)
        if m["tail"] == "list":
            if len(dims) == 2:
                return Lst(self.I.alloc(tuple(Lst(self.I.alloc(tuple(es[i * dims[1]:(i + 1) * dims[1]])))
                                              for i in range(dims[0]))))
            return Lst(self.I.alloc(tuple(es)))
        a = self.I.newarr(es, dims, kind)
        if m["tail"] == "series":
            a.series = True
        return a

    def run_ob(self, prop, modname, fdef, title=None, wide=None):
        """interpret one spec function; returns Ob with claims"""
        I = self.I
        self.reset()
        ob = Ob(prop, fdef.name, title or ast.get_docstring(fdef) or fdef.name)
        ob.wide = wide
        self.cur = ob
        I.spec_hook = self.hook
        I.loaded_effects = self.load_effects
        try:
            m = I.load("specs." + modname) if ("specs." + modname) not in I.modules else I.modules["specs." + modname]
            f = I.heap[m.env][fdef.name]
            # ranges must be set before interpretation
            args = []
            for a in fdef.args.args:
                ann = a.annotation
                args.append(self.mkparam(a.arg, ann.value, ob, (wide or {}).get(a.arg)))
            I.setranges(dict(ob.ranges))
            I.called = set()
            I.callsites = 0
            try:
                I.call(f, args, {})
            except PyRaise as e:
                at = next((v for k, v in I.raise_at.items() if k and k in str(e)), None) or next(iter(I.raise_at.values()), I.loc)
                ob.raised = "%s (at %s:%s)" % (e, at[0], at[1])
        except Undecided as e:
            ob.error = str(e)
        except values.Budget as e:
            ob.error = "budget: %s" % e
        except RecursionError:
            ob.error = "recursion"
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            ob.error = "analyser: %s: %s" % (type(e).__name__, e)
        ob.called = {c for c in I.called if c[0].startswith(PKG)}
        ob.sites = I.callsites
        ob.tops = list(I.tops)
        ob.effects = list(I.effects)
        return ob

    # ------------------------------------------------------------ spec natives
    def hook(self, name, args, kw):
        I = self.I
        ob = self.cur
        label = kw.get("label")
        if name in ("eq", "le", "differs"):
            a, b = args[0], args[1]
            if len(args) > 2:
                label = args[2]
            c = Claim(name, label or "%s#%d" % (name, len(ob.claims) + 1), [], {
                "dev": None, "finding": kw.get("finding"), "tol": kw.get("tol", 1e-9), "strict": kw.get("strict", False)},
                I.loc)
            if not isinstance(c.opts["tol"], float):
                c.opts["tol"] = float(ir.cval(I.N(c.opts["tol"])))
            c.heap = I.heap
            self.pair(c, a, b, "")
            if kw.get("dev") is not None:
                d = Claim("eq", "dev", [], c.opts, I.loc)
                self.pair(d, a, kw["dev"], "")
                c.opts["dev"] = d
            if kw.get("cert") is not None:
                # certificate: the difference equals an expression that is visibly not negative
                d = Claim("eq", "cert", [], c.opts, I.loc)
                self.pair(d, a, b, "")
                e = Claim("eq", "cert", [], c.opts, I.loc)
                self.pair(e, kw["cert"], a, "")
                c.opts["cert"] = None if d.bad or e.bad or d.undecided or e.undecided or len(d.pairs) != len(e.pairs) else [x[0] for x in e.pairs]
            ob.claims.append(c)
            return None
        if name == "slope":
            return self.slope(args[0], args[1])
        if name == "fact":
            # statically decided fact: fact(bool, label)
            v = I.flat(args[0])
            label = args[1]
            c = Claim("fact", label, [], {"finding": kw.get("finding"), "dev": None}, I.loc)
            if isinstance(v, Top):
                c.undecided = v.reason
            else:
                t = I.truth(v) if not isinstance(v, bool) else v
                d = t if isinstance(t, bool) else I.decide(t)
                if d is None:
                    c.undecided = "undetermined"
                elif not d:
                    c.bad = "is false"
            ob.claims.append(c)
            return None
        if name == "copy":
            return self.deepcopy(args[0])
        if name == "scribble":
            self.scribble(args[0])
            return None
        if name == "raises":
            try:
                h = I.heap
                I.call(args[0], list(args[1:]), dict(kw))
                I.heap = h
                return False
            except PyRaise:
                return True
        if name == "fresh":
            # call in the state right after import: result must not depend on history
            h, nid = I.heap, I.nid
            saved = {k: v for k, v in I.heap.items()}
            for k, v in self._heap.items():
                I.heap[k] = v
            try:
                return I.call(args[0], list(args[1:]), dict(kw))
            finally:
                pass
        if name == "statesame":
            # persistent heap (modules, classes, defaults) unchanged since import
            bad = []
            for k, v in self._heap.items():
                w = I.heap.get(k)
                if w is not v and not self.heapsame(v, w):
                    bad.append(k)
            c = Claim("fact", "module, class and default-argument state unchanged", [], {"dev": None}, I.loc)
            if bad:
                c.bad = "persistent object changed: %s" % ", ".join(self.descr(k) for k in bad[:3])
            ob.claims.append(c)
            return None
        if name == "noeffects":
            c = Claim("fact", "no nondeterministic or ambient effect", [], {"dev": None}, I.loc)
            kinds = ("nondet", "state", "io")
            ef = [e for e in I.effects if e[0] in kinds]
            if ef:
                c.bad = "; ".join("%s at %s:%s in %s" % (e[1], e[2], e[3], e[4]) for e in ef[:3])
            ob.claims.append(c)
            return None
        if name == "narrow":
            return args[0]
        if name == "plotcalls":
            # opaque (plotting) calls recorded so far: tuple of (name, args, kw)
            return tuple((r[0], tuple(r[1]), Dct(I.alloc(dict(r[2])))) for r in getattr(I, "opaque_calls", []))
        if name == "drawn":
            return self.drawn(args[0], args[1], list(args[2:]), kw)
        if name == "dtype":
            v = I.flat(args[0])
            if isinstance(v, Arr):
                return I.dtype(v)
            return I.N(v).kind
        if name == "sigof":
            return self.sigof(args[0])
        if name == "public":
            return self.public(args[0])
        raise Undecided("unknown spec primitive %s" % name)

    def slope(self, v, x):
        """partial derivative of every element of v with respect to the symbol x"""
        I = self.I
        v, x = I.flat(v), I.flat(x)
        if isinstance(x, Arr) and x.size == 1:
            x = I.elems(x)[0]
        if not (isinstance(x, ir.Node) and x.op == "sym"):
            return I.top("slope in a compound")
        def d(e):
            e = interval.deriv(I.N(e), x.data[0])
            return I.topn("slope of an unmodelled operation") if e is None else e
        if isinstance(v, tuple):
            return tuple(self.slope(y, x) for y in v)
        if isinstance(v, Lst):
            return tuple(self.slope(y, x) for y in I.heap[v.id])
        if isinstance(v, Arr):
            return I.newarr([d(e) for e in I.elems(v)], v.shape, "f")
        if isinstance(v, Top):
            return v
        return d(v)

    def drawn(self, method, label, data, kw):
        """some recorded call of an external function `method` is given exactly this data"""
        I = self.I
        c = Claim("any", label, [], {"dev": None, "finding": None, "tol": 1e-9, "strict": False}, I.loc)
        c.alts = []
        names = {"plot": ("plot", "step", "semilogy", "semilogx", "loglog")}.get(method, (method,))
        for what, args, k, loc in I.opaque_calls:
            if what.replace("()", "").split(".")[-1] not in names:
                continue
            pos = list(args)
            if any(isinstance(x, Top) for x in pos) or "data" in k:
                c.undecided = "unmodelled data in %s" % what
            k = dict(k)
            sig = {"scatter": ("x", "y", "s", "c"), "kde2d": ("x", "y", "n", "limits")}.get(method)
            if sig:
                for n, x in zip(sig[2:], pos[2:]):
                    k.setdefault(n, x)
                pos = pos[:2]
            for n in ("x", "y"):
                if n in k:
                    pos.append(k[n])
            groups = [pos]
            if "plot" in names:
                groups, cur = [], []
                for x in pos:
                    if isinstance(x, str) or len(cur) == 2:
                        groups.append(cur)
                        cur = [] if isinstance(x, str) else [x]
                    else:
                        cur.append(x)
                groups.append(cur)
                groups = [h for g in groups for h in self.columns(g)]
            for g in groups:
                if len(g) < len(data):
                    continue
                d = Claim("eq", label, [], c.opts, loc)
                for i, (x, y) in enumerate(zip(g, data)):
                    self.pair(d, x, y, "argument %d" % i)
                for n, y in kw.items():
                    if n not in k:
                        d.bad = "no argument %s" % n
                        if any(w[0].split(".")[-1] in ("set_cmap", "set_array", "set") for w in I.opaque_calls):
                            d.bad, d.undecided = None, "set later"
                    else:
                        self.pair(d, k[n], y, n)
                c.alts.append(d)
        if not c.alts and not c.undecided:
            last = {w.replace("()", "").split(".")[-1].split("[")[0] for w, _, _, _ in I.opaque_calls}
            if method == "scatter" and "plot" in last:
                return self.drawn("plot", label, data, {})
            if last <= IDLE and not I.tops:
                c.bad = "nothing that could draw or receive the data is called (%s expected)" % method
            else:
                c.undecided = "no call of %s" % method
        self.cur.claims.append(c)
        return None

    def columns(self, g):
        """plotting two-dimensional data draws one line per column"""
        I = self.I
        g = [I.flat(x) for x in g]
        if len(g) == 2 and isinstance(g[1], Arr) and g[1].ndim == 2:
            n, m = g[1].shape
            ys = I.elems(g[1])
            out = []
            for j in range(m):
                x = g[0]
                if isinstance(x, Arr) and x.ndim == 2:
                    if x.shape != (n, m):
                        return [g]
                    x = I.newarr(I.elems(x)[j::m], (n,), I.dtype(x))
                out.append([x, I.newarr(ys[j::m], (n,), I.dtype(g[1]))])
            return out
        return [g]

    def descr(self, k):
        for m in self.I.modules.values():
            if m.env == k:
                return "globals of %s" % m.name
        v = self._heap.get(k)
        return type(v).__name__

    def heapsame(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, values.Buf):
            return len(a.elems) == len(b.elems) and all(x is y for x, y in zip(a.elems, b.elems))
        if isinstance(a, dict):
            return a.keys() == b.keys() and all(self.I.same(a[k], b[k]) for k in a)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.I.same(x, y) for x, y in zip(a, b))
        return a == b

    def deepcopy(self, v):
        I = self.I
        v = I.flat(v)
        if isinstance(v, Arr):
            n = I.newarr(I.elems(v), v.shape, I.dtype(v))
            n.series = v.series
            return n
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x) for x in v)
        if isinstance(v, Lst):
            return Lst(I.alloc(tuple(self.deepcopy(x) for x in I.heap[v.id])))
        if isinstance(v, Dct):
            return Dct(I.alloc({k: self.deepcopy(x) for k, x in I.heap[v.id].items()}))
        if isinstance(v, DF):
            d = I.heap[v.id]
            n = dict(d)
            n["cols"] = {k: self.deepcopy(x) for k, x in d["cols"].items()}
            return DF(I.alloc(n))
        return v

    def scribble(self, v):
        """overwrite every mutable part of a value"""
        I = self.I
        v = I.flat(v)
        if isinstance(v, Arr):
            self.nscrib = getattr(self, "nscrib", 0) + 1
            I.write_buf(v, range(v.size), [ir.const(Fraction(7919 + 13 * i + self.nscrib)) for i in range(v.size)])
        elif isinstance(v, tuple):
            for x in v:
                self.scribble(x)
        elif isinstance(v, Lst):
            for x in I.heap[v.id]:
                self.scribble(x)
            I.heap[v.id] = (ir.const(Fraction(7919)),) * len(I.heap[v.id])
        elif isinstance(v, Dct):
            for x in I.heap[v.id].values():
                self.scribble(x)
        elif isinstance(v, DF):
            for x in I.heap[v.id]["cols"].values():
                self.scribble(x)

    def sigof(self, f):
        I = self.I
        f = I.flat(f)
        if isinstance(f, Bound):
            f = f.func
        if not isinstance(f, Func):
            return None
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        d = {}
        for n, v in zip(pos[len(pos) - nd:] if nd else [], f.defaults):
            d[n] = v
        for x, v in zip(a.kwonlyargs, f.kwdefaults):
            if v is not None or a.kw_defaults[a.kwonlyargs.index(x)] is not None:
                d[x.arg] = v
        names = pos + [x.arg for x in a.kwonlyargs]
        return (tuple(names), Dct(I.alloc(d)))

    def pair(self, c, a, b, path, dep=0):
        """flatten two abstract values into node pairs"""
        I = self.I
        a, b = I.flat(a), I.flat(b)
        if dep > 12:
            c.undecided = "nesting"
            return
        if isinstance(a, Top) or isinstance(b, Top):
            c.undecided = (a if isinstance(a, Top) else b).reason
            return
        if isinstance(a, RaiseV) and isinstance(b, RaiseV):
            return
        if isinstance(a, Phi) or isinstance(b, Phi):
            if isinstance(a, Phi) and isinstance(b, Phi) and a.cond is b.cond:
                self.pairg(c, a.cond, (a.a, b.a), (a.b, b.b), path, dep)
                return
            p = a if isinstance(a, Phi) else b
            if p is a:
                self.pairg(c, p.cond, (p.a, b), (p.b, b), path, dep)
            else:
                self.pairg(c, p.cond, (a, p.a), (a, p.b), path, dep)
            return
        if isinstance(a, RaiseV) or isinstance(b, RaiseV) or a is UNDEF or b is UNDEF:
            c.bad = "%s vs %s at %s" % (short(a), short(b), path or "result")
            return
        na, nb = values.isnum(a), values.isnum(b)
        if na and nb:
            c.pairs.append((I.N(a), I.N(b), path))
            return
        sa, sb = seq(I, a), seq(I, b)
        if isinstance(a, Masked) or isinstance(b, Masked):
            if isinstance(a, Masked) and isinstance(b, Masked) and len(a.elems) == len(b.elems):
                z = ir.const(0, "f")
                for k, (x, m, y, n) in enumerate(zip(a.elems, a.mask, b.elems, b.mask)):
                    c.pairs.append((m, n, path + "[%d] selected" % k))
                    c.pairs.append((ir.sel(m, x, z), ir.sel(n, y, z), path + "[%d]" % k))
                return
            m, o, flip = (a, b, False) if isinstance(a, Masked) else (b, a, True)
            if values.isnum(o) or isinstance(o, Arr):
                want = [I.N(o)] if values.isnum(o) else I.elems(o)
                if len(want) <= len(m.elems):
                    from . import npmodel
                    cnt = ir.const(0)
                    for g in m.mask:
                        cnt = ir.add(cnt, ir.sel(g, ir.const(1), ir.const(0)))
                    c.pairs.append((cnt, ir.const(len(want)), path + " number selected"))
                    for k, w in enumerate(want):
                        v = npmodel.masked_pick(I, m, k)
                        c.pairs.append((w, v, path + "[%d]" % k) if flip else (v, w, path + "[%d]" % k))
                    return
            c.undecided = "masked"
            return
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape != b.shape:
                sq = lambda s: tuple(d for d in s if d != 1)
                if c.opts.get("strict") or sq(a.shape) != sq(b.shape):
                    c.bad = "shape %s vs %s at %s" % (a.shape, b.shape, path or "result")
                    return
            for k, (x, y) in enumerate(zip(I.elems(a), I.elems(b))):
                c.pairs.append((x, y, path + "[%d]" % k))
            return
        if isinstance(a, DF) and isinstance(b, DF):
            ca, cb = I.heap[a.id]["cols"], I.heap[b.id]["cols"]
            if list(ca) != list(cb):
                c.bad = "columns %s vs %s" % (list(ca), list(cb))
                return
            for k in ca:
                self.pair(c, ca[k], cb[k], path + "." + str(k), dep + 1)
            return
        if isinstance(a, Dct) and isinstance(b, Dct):
            ca, cb = I.heap[a.id], I.heap[b.id]
            if list(map(str, ca)) != list(map(str, cb)):
                c.bad = "keys %s vs %s" % (list(ca), list(cb))
                return
            for k in ca:
                self.pair(c, ca[k], cb[k], path + "[%s]" % (k,), dep + 1)
            return
        if c.kind == "le" and (na and sb is not None or nb and sa is not None):
            for k, x in enumerate(sb if na else sa):
                self.pair(c, a if na else x, x if na else b, path + "[%d]" % k, dep + 1)
            return
        if (na and isinstance(b, Arr)) or (nb and isinstance(a, Arr)):
            arr = b if na else a
            if arr.size == 1 and (not c.opts.get("strict") or arr.shape == ()):
                x = I.elems(arr)[0]
                c.pairs.append((I.N(a), x, path) if na else (x, I.N(b), path))
                return
            c.bad = "scalar vs array %s at %s" % (arr.shape, path or "result")
            return
        if sa is not None and sb is not None:
            if len(sa) != len(sb):
                c.bad = "length %d vs %d at %s" % (len(sa), len(sb), path or "result")
                return
            for k, (x, y) in enumerate(zip(sa, sb)):
                self.pair(c, x, y, path + "[%d]" % k, dep + 1)
            return
        if a is None and b is None or isinstance(a, str) and isinstance(b, str):
            if a != b:
                c.bad = "%r vs %r at %s" % (a, b, path or "result")
            return
        if (a is None or isinstance(a, str) or na or sa is not None) and (b is None or isinstance(b, str) or nb or sb is not None):
            c.bad = "%s vs %s at %s" % (short(a), short(b), path or "result")
            return
        if I.same(a, b):
            return
        c.undecided = "incomparable %s / %s" % (type(a).__name__, type(b).__name__)

    def pairg(self, c, g, p, q, path, dep):
        """two alternatives guarded by g / not g"""
        x = Claim(c.kind, "", [], c.opts, c.where)
        y = Claim(c.kind, "", [], c.opts, c.where)
        self.pair(x, p[0], p[1], path, dep + 1)
        self.pair(y, q[0], q[1], path, dep + 1)
        for s, gg in ((x, g), (y, ir.not_(g))):
            if s.undecided:
                c.undecided = s.undecided
            if s.bad:
                # only bad when the guard can hold: express as boolean pair
                c.pairs.append((gg, ir.FALSE, path + "{%s}" % s.bad))
            for a, b, pp in s.pairs:
                z = ir.const(0, "f")
                c.pairs.append((ir.sel(gg, a, z), ir.sel(gg, b, z), pp))


def short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + "..."


def seq(I, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Lst):
        return list(I.heap[v.id])
    if isinstance(v, Arr) and v.ndim >= 1:
        if v.ndim == 1:
            return I.elems(v)
        return I.iterate(v)
    return None


def interval_of(lo, hi):
    a, b = float(lo), float(hi)
    return (a, b)


# ------------------------------------------------------------------ decision
class Boxes:
    """thin and wide boxes inside the declared ranges"""

    def __init__(self, ob, seed):
        self.ob = ob
        self.rnd = random.Random("%s/%s/%s" % (seed, ob.prop, ob.name))
        self.names = sorted(ob.ranges)

    def point(self, mode):
        pt = {}
        r = self.rnd
        for n in self.names:
            lo, hi = self.ob.ranges[n]
            if n in self.ob.ints:
                pt[n] = float(r.randint(int(lo), int(hi)))
            elif mode == "lo":
                pt[n] = lo
            elif mode == "hi":
                pt[n] = hi
            elif mode == "mid":
                pt[n] = (lo + hi) / 2
            elif mode == "edge" and r.random() < 0.35:
                pt[n] = lo if r.random() < 0.5 else hi
            elif lo > 0 and hi / lo > 50 and r.random() < 0.6:
                import math
                pt[n] = math.exp(r.uniform(math.log(lo), math.log(hi)))
            else:
                pt[n] = r.uniform(lo, hi)
        return pt

    def box(self, pt, rel=1e-11):
        b = {}
        for n, x in pt.items():
            lo, hi = self.ob.ranges[n]
            if n in self.ob.ints or rel == 0 or lo == hi:
                b[n] = (x, x)
            else:
                w = abs(x) * rel
                l, u = max(lo, x - w), min(hi, x + w)
                if l > u:
                    l = u = x
                b[n] = (l, u)
        for n in PLACE:
            if n not in b:
                k = int(n[2:].split("_")[-1]) if n[1] in "uy" else 0
                if n[1] == "t":
                    b[n] = (0.31 + 0.0, 0.31)
                else:
                    b[n] = (7.0 + 3.1 * k,) * 2
        for n, x in npmodel.kde_point().items():
            b[n] = (x, x)
        return b


PLACE = ["$u0_%d" % k for k in range(4)] + ["$y0_%d" % k for k in range(4)] + ["$t0"]


def conds_of(roots, cap=60):
    out = []
    for n in ir.topo(roots):
        if n.op in ("lt", "le", "eq") and not any(d.startswith("$") for d in ir.deps(n)):
            out.append(n)
    return out[:cap]


def directed(ob, bx, roots, limit):
    """points on both sides of, and on, the branch conditions of the graph"""
    cs = conds_of(roots)
    pts = []
    if not cs:
        return pts
    rnd = bx.rnd

    def val(c, pt):
        b = bx.box(pt, 0)
        m = interval.evaluate([c.args[0], c.args[1]], b)
        x, y = m[c.args[0].id], m[c.args[1].id]
        if interval.isreal(x) and interval.isreal(y):
            return (x[0] + x[1]) / 2 - (y[0] + y[1]) / 2
        return None
    found = []
    for rounds in range(2):
        for c in cs:
            ds = [d for d in sorted(ir.deps(c)) if d in ob.ranges]
            if not ds:
                continue
            rnd.shuffle(ds)
            hit = 0
            for d in ds[:6]:
                if hit >= 2:
                    break
                lo, hi = ob.ranges[d]
                for tr in range(2 if rounds == 0 else 3):
                    base = bx.point("rand") if (rounds == 0 or not found or rnd.random() < 0.3) else dict(rnd.choice(found))
                    p, q = dict(base), dict(base)
                    p[d], q[d] = lo, hi
                    a, b = val(c, p), val(c, q)
                    if a is None or b is None or a * b > 0 or (a == 0 and b == 0):
                        continue
                    l, u = lo, hi
                    if d in ob.ints:
                        x = None
                        for z in range(int(lo), int(hi) + 1):
                            p[d] = float(z)
                            v = val(c, p)
                            if v == 0:
                                x = float(z)
                                break
                        if x is None:
                            continue
                    else:
                        for _ in range(70):
                            mm = (l + u) / 2
                            p[d] = mm
                            v = val(c, p)
                            if v is None:
                                break
                            if v == 0:
                                l = u = mm
                                break
                            if (v > 0) == (a > 0):
                                l = mm
                            else:
                                u = mm
                        x = (l + u) / 2
                        # snap to an exact constant
                        for a_ in c.args:
                            if a_.op == "const" and lo <= float(a_.data[0]) <= hi and abs(float(a_.data[0]) - x) < 1e-9 * max(1, abs(x)):
                                x = float(a_.data[0])
                    hit += 1
                    w = hi - lo
                    for dx in (0.0, 1e-7 * w, -1e-7 * w, 1e-3 * w, -1e-3 * w, 0.2 * w, -0.2 * w):
                        y = x + dx
                        if d in ob.ints:
                            y = float(round(x + (1 if dx > 0 else -1 if dx < 0 else 0)))
                        if lo <= y <= hi:
                            z = dict(base)
                            z[d] = y
                            pts.append((z, dx == 0.0))
                            found.append(z)
                    break
            if len(pts) > limit:
                return pts
        if len(cs) < 2:
            break
    return pts


def decide_ob(ob, tier, seed, findings, full=False):
    """fills ob.results with (claim, verdict, detail)"""
    sampled = False
    nb = 14 if tier == "quick" else 120
    ndir = 60 if tier == "quick" else 600
    positive = {n for n, (lo, hi) in ob.ranges.items() if lo >= 0}
    out = []
    eqs = []
    for c in ob.claims:
        if c.bad:
            continue
        if c.undecided:
            continue
        if c.kind in ("eq", "differs", "le"):
            ps = list(enumerate(c.pairs))
            if c.kind == "differs" and len(ps) > 8 and not full:
                # a few elements suffice to show a difference
                q = [x for x in ps if x[1][0] is not x[1][1]] or ps[:1]
                ps = q[::max(1, len(q) // 4)]
                sampled = True
            for i, (a, b, p) in ps:
                eqs.append((c, i, a, b))
    # expand ode pairs
    work = []
    for c, i, a, b in eqs:
        if a is not b and a.op == "ode" and b.op == "ode" and a.data == b.data and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                work.append((c, i, x, y))
        else:
            work.append((c, i, a, b))
    vr = vn.equal([(a, b) for _, _, a, b in work], positive, tries=10 if tier == "quick" else 32, seed=seed)
    bx = Boxes(ob, seed)
    status = {}
    refuted = {}
    todo = []
    for k, ((c, i, a, b), v) in enumerate(zip(work, vr)):
        ncond = sum(1 for n in ir.topo((a, b)) if n.op in ("lt", "le", "eq")) if a is not b else 0
        status[k] = v
        if a is b and c.kind != "differs":
            continue
        todo.append((k, c, i, a, b, v, ncond))
    npts = 0
    sep = set()

    def test(box, items, exact=False):
        nonlocal npts
        npts += 1
        memo = {}
        roots = []
        for it in items:
            roots += [it[3], it[4]]
        interval.evaluate(roots, box, memo)
        for it in items:
            k, c, i, a, b = it[:5]
            if k in refuted or (c.kind == "differs" and k in sep):
                continue
            x, y = memo[a.id], memo[b.id]
            if ob.wide and c.kind != "differs" and stray(ob, a, b, memo):
                continue
            if c.kind == "le":
                if interval.below(y, x, c.opts["tol"]):
                    refuted[k] = (dict(box), x, y)
                elif x == interval.NAN or y == interval.NAN or x == interval.RAISE or y == interval.RAISE:
                    refuted[k] = (dict(box), x, y)
            else:
                if interval.disjoint(x, y, c.opts["tol"]):
                    if c.kind == "differs":
                        sep.add(k)
                    else:
                        refuted[k] = (dict(box), x, y)
    easy = [t for t in todo if t[5] == "eq" and t[1].kind == "eq" and t[6] == 0]
    hard = [t for t in todo if not (t[5] == "eq" and t[1].kind == "eq" and t[6] == 0)]
    for s in range(2 if tier == "quick" else 6):
        if easy:
            test(bx.box(bx.point("mid" if s == 0 else "rand")), easy)
    if any(t[1].kind == "le" for t in hard):
        nb *= 5
    if hard:
        for s in range(nb):
            mode = "mid" if s == 0 else "lo" if s == 1 else "hi" if s == 2 else "edge" if s % 3 == 0 else "rand"
            rel = 1e-11 if s % 4 else 0
            test(bx.box(bx.point(mode), rel), hard)
        roots = []
        for t in hard:
            roots += [t[3], t[4]]
        pts = directed(ob, bx, roots, ndir)
        if len(pts) > ndir:
            bx.rnd.shuffle(pts)
            pts = pts[:ndir]
        for pt, ex in pts:
            test(bx.box(pt, 0), hard)
            if all(t[0] in refuted for t in hard):
                break
    # deep computations: many digits at single points
    left = [t for t in hard if t[1].kind in ("eq", "le") and t[5] != "eq" and t[0] not in refuted and not ob.wide][:60]
    if left:
        for s in range(4 if tier == "quick" else 16):
            box = bx.box(bx.point(("mid", "hi", "lo")[s] if s < 3 else "rand"), 0)
            rs = [x for t in left if t[0] not in refuted for x in (t[3], t[4])]
            if not rs or len(ir.topo(rs)) > 60000:
                break
            vs, big = hp.evaluate(rs, box)
            for j, t in enumerate([t for t in left if t[0] not in refuted]):
                x, y = vs[2*j], vs[2*j + 1]
                if x and y and abs(x[0] - y[0]) > 1e-13*big and (interval.below(y, x, t[1].opts["tol"]) if t[1].kind == "le" else interval.disjoint(x, y, t[1].opts["tol"])):
                    refuted[t[0]] = (dict(box), x, y)
    # choices taken at a point may make operands coincide
    left = [t for t in hard if t[1].kind in ("eq", "le") and t[5] != "eq" and t[0] not in refuted and t[6] and not ob.wide][:60]
    if left:
        for s in range(2):
            box = bx.box(bx.point("mid" if s == 0 else "rand"), 0)
            memo = {}
            rs = [x for t in left for x in (t[3], t[4])]
            interval.evaluate(rs, box, memo)
            sp = specialise(rs, memo)
            interval.evaluate(sp, box, memo)
            for j, t in enumerate(left):
                a, b = sp[2*j], sp[2*j + 1]
                x, y = memo[a.id], memo[b.id]
                if t[0] not in refuted and (interval.below(y, x, t[1].opts["tol"]) if t[1].kind == "le" else interval.disjoint(x, y, t[1].opts["tol"])):
                    refuted[t[0]] = (dict(box), memo[a.id], memo[b.id])
    # results made of memory nobody wrote
    left = [t for t in hard if t[1].kind in ("eq", "le") and t[5] != "eq" and t[0] not in refuted][:60]
    if left and ob.tops and all(x.startswith("uninitialised element") for x in ob.tops):
        for s in range(2):
            box = bx.box(bx.point("mid" if s == 0 else "rand"), 0)
            memo = {}
            rs = [x for t in left for x in (t[3], t[4])]
            interval.evaluate(rs, box, memo)
            sp = specialise(rs, memo)
            for j, t in enumerate(left):
                if t[0] not in refuted and (garbage(sp[2*j]) or garbage(sp[2*j + 1])):
                    refuted[t[0]] = (dict(box), "an uninitialised element", memo[t[4].id])
    # denominators that vanish identically, whatever way they are written
    left = [t for t in hard if t[1].kind in ("eq", "le") and t[5] != "eq" and t[0] not in refuted and not ob.wide][:60]
    if left:
        rs = [x for t in left for x in (t[3], t[4])]
        box = bx.box(bx.point("rand"), 0)
        memo = {}
        interval.evaluate(rs, box, memo)
        zs = {n.args[1].id: n.args[1] for n in ir.topo(rs) if n.op == "div" and n.args[1].op != "const" and spans0(memo[n.args[1].id])}
        zs = list(zs.values())[:40]
        zv = vn.equal([(z, ir.const(0, "f")) for z in zs], positive, tries=10, seed=seed) if zs else []
        zero = {z.id for z, v in zip(zs, zv) if v == "eq"}
        if zero:
            sp = specialise(rs, memo, zero)
            interval.evaluate(sp, box, memo)
            for j, t in enumerate(left):
                a, b = sp[2*j], sp[2*j + 1]
                x, y = memo[a.id], memo[b.id]
                if interval.below(y, x, t[1].opts["tol"]) if t[1].kind == "le" else interval.disjoint(x, y, t[1].opts["tol"]):
                    refuted[t[0]] = (dict(box), x, y)
    # dev claims
    ob.boxes = npts
    for c in ob.claims:
        if c.bad and c.kind == "differs":
            out.append((c, "proved", "different structure: %s" % c.bad))
            continue
        if c.bad:
            out.append((c, "bad", c.bad))
            continue
        if c.undecided:
            out.append((c, "undecided", c.undecided))
            continue
        if c.kind == "fact":
            out.append((c, "proved", "fact"))
            continue
        if c.kind == "any":
            ok = [d for d in c.alts if not dev_refuted(d, ob, seed, tier, positive)]
            if ok:
                pv = any(not d.undecided and all(v == "eq" for v in vn.equal([(a, b) for a, b, _ in d.pairs], positive, tries=10, seed=seed)) for d in ok)
                out.append((c, "proved" if pv else "held", "value numbering" if pv else "not separated"))
            else:
                out.append((c, "bad", "none of the %d calls (line %s) is given the expected data" % (len(c.alts), sorted({d.where[1] for d in c.alts}))))
            continue
        ks = [k for k, w in enumerate(work) if w[0] is c]
        r = [k for k in ks if k in refuted]
        if c.kind == "differs":
            if not ks:
                out.append((c, "undecided", "empty"))
            elif any(k in sep or status[k] in ("ne", "cond") for k in ks):
                out.append((c, "proved", "different value numbers"))
            else:
                out.append((c, "bad", "values do not depend on it: %s" % ir.show(work[ks[0]][2], 5)))
            continue
        if r:
            k = r[0]
            box, x, y = refuted[k]
            _, i, a, b = work[k]
            sub = c.pairs[i][2]
            out.append((c, "bad", {"element": sub, "box": {n: v for n, v in box.items() if n in ob.ranges},
                                   "got": fmt(x), "want": fmt(y), "value": ir.show(a, 4)[:300],
                                   "reference": ir.show(b, 4)[:300], "n_elements": len(r)}))
            continue
        if c.kind == "le":
            if tier != "quick" or True:
                ce = c.opts.get("cert")
                pr = all(status[k] == "eq" or (ce and prove_cert(work[k][2], work[k][3], ce[work[k][1]], ob, positive, seed)) or
                         prove_le(work[k][2], work[k][3], ob, 40 if tier == "quick" else 2000) for k in ks)
            out.append((c, "proved" if pr else "held", "interval" if pr else "not separated on %d boxes" % npts))
            continue
        if all(status[k] == "eq" for k in ks):
            out.append((c, "proved", "value numbering"))
        else:
            q = [k for k in ks if status[k] != "eq"]
            a, b = work[q[0]][2], work[q[0]][3]
            tp = any(n.op in ("top", "topb") for n in ir.topo((a, b)))
            if tp:
                rs = [ir.TOPREASON.get(n.id, "?") for n in ir.topo((a, b)) if n.op == "top"]
                out.append((c, "undecided", "unmodelled: %s" % (rs[:1],)))
            else:
                out.append((c, "held", "enclosures overlap on all %d boxes" % npts))
    if sampled and any(v == "bad" and c.kind == "differs" for c, v, d in out):
        return decide_ob(ob, tier, seed, findings, True)
    # known deviations
    for j, (c, v, d) in enumerate(out):
        dv = c.opts.get("dev") if c.opts else None
        if v == "bad" and c.opts.get("finding"):
            if c.opts["finding"] in findings and (dv is None or not dev_refuted(dv, ob, seed, tier, positive)):
                out[j] = (c, "known", c.opts["finding"])
    ob.results = out
    return out


REB = {"flt": ir.tofloat, "add": ir.add, "mul": ir.mul, "neg": ir.neg, "div": ir.div, "sel": ir.sel, "and": ir.and_, "or": ir.or_, "not": ir.not_,
       "lt": ir.lt, "le": ir.le, "eq": ir.eq, "ne": ir.ne}


STRICT = {"add", "sub", "mul", "div", "neg", "pow", "flt", "sqrt", "exp", "log", "sin", "cos", "tan", "arccos", "arcsin", "arctan", "abs", "real", "imag", "min2", "max2"}


def garbage(n):
    """is the value computed, by operations that use all their operands, from an element that was never written"""
    seen = set()
    todo = [n]
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "top" and ir.TOPREASON.get(n.id, "").startswith("uninitialised element"):
            return True
        if n.op in STRICT:
            todo += n.args
    return False


def spans0(v):
    return interval.isreal(v) and v[0] <= 0 <= v[1] and v[1] - v[0] < 1e-6


def specialise(roots, memo, zero=()):
    """the same values at one point: every choice the enclosures decide is taken, so that equal operands become one node; nodes in zero vanish"""
    new = {}
    for n in ir.topo(roots):
        if n.id in zero:
            new[n.id] = ir.const(0, n.kind)
            continue
        v = memo.get(n.id)
        if n.kind == "b" and n.op != "sym" and (v is interval.T or v is interval.F):
            new[n.id] = ir.TRUE if v is interval.T else ir.FALSE
            continue
        args = [new[x.id] for x in n.args]
        if n.op in ("min2", "max2") and all(interval.isreal(memo[x.id]) for x in n.args):
            x, y = memo[n.args[0].id], memo[n.args[1].id]
            if args[0] is args[1]:
                new[n.id] = args[0]
                continue
            if x[1] < y[0] or y[1] < x[0]:
                new[n.id] = args[0] if (x[1] < y[0]) == (n.op == "min2") else args[1]
                continue
        if all(p is q for p, q in zip(args, n.args)):
            new[n.id] = n
        elif n.op == "sub" and (args[0] is not args[1] or interval.isreal(memo[n.args[0].id])):
            new[n.id] = ir.sub(*args)
        elif n.op in REB and not (n.op in ("mul", "lt", "le", "eq", "ne") and not all(interval.isreal(memo[x.id]) for x in n.args)):
            new[n.id] = REB[n.op](*args)
        else:
            new[n.id] = ir.mk(n.op, tuple(args), n.data)
    return [new[r.id] for r in roots]


def stray(ob, a, b, memo):
    """over stretched ranges: a side leaves the domain of a root or logarithm there (NaN that nobody wrote down), which says nothing"""
    if not ob.wide:
        return False
    x, y = memo[a.id], memo[b.id]
    bad = [n for n, v in ((a, x), (b, y)) if v == interval.NAN or v == interval.RAISE]
    if not bad:
        return False
    for n in bad:
        while True:
            if n.op in ("nan", "raise"):
                break
            v = memo[n.id]
            if n.op == "sel":
                c = memo[n.args[0].id]
                kids = [n.args[1]] if c is interval.T else [n.args[2]] if c is interval.F else n.args
            else:
                kids = n.args
            nx = [k for k in kids if k.id in memo and memo[k.id] == v]
            if not nx:
                return True
            n = nx[0]
    return False


def dev_refuted(d, ob, seed, tier, positive):
    if d.bad:
        return True
    if d.undecided:
        return False
    bx = Boxes(ob, seed)
    roots = [x for p in d.pairs for x in p[:2]]
    if roots and ob.tops and all(x.startswith("uninitialised element") for x in ob.tops):
        memo = interval.evaluate(roots, bx.box(bx.point("mid"), 0), {})
        if any(garbage(x) for x in specialise(roots, memo)):
            return True
    pts = [(bx.point("mid"), 0)] + [(bx.point("rand"), 0) for _ in range(10)] + directed(ob, bx, roots, 40)
    for pt, _ in pts:
        box = bx.box(pt)
        memo = interval.evaluate(roots, box)
        for a, b, _ in d.pairs:
            if interval.disjoint(memo[a.id], memo[b.id], d.opts["tol"]) and not stray(ob, a, b, memo):
                return True
    return False


def prove_cert(a, b, ce, ob, positive, seed):
    """b - a has the value number of the certificate, whose enclosure over all ranges is not negative"""
    if vn.equal([(ir.sub(b, a), ce)], positive, tries=10, seed=seed)[0] != "eq":
        return False
    return prove_le(ir.const(0, "f"), ce, ob, 200)


def prove_le(a, b, ob, budget):
    if a is b:
        return True
    syms = [s for s in (ir.deps(a) | ir.deps(b)) if s in ob.ranges]
    roots = [a, b, ir.sub(b, a)]
    stack = [dict(ob.ranges)]
    n = 0
    while stack:
        box = stack.pop()
        n += 1
        if n > budget:
            return False
        m = interval.evaluate(roots, box)
        x, y, d = (m[r.id] for r in roots)
        if interval.isreal(x) and interval.isreal(y) and x[1] <= y[0]:
            continue
        if interval.isreal(d) and d[0] >= 0:
            continue
        best = None
        for s in syms:
            lo, hi = box[s]
            w = (hi - lo) / max(abs(ob.ranges[s][1] - ob.ranges[s][0]), 1e-300)
            if best is None or w > best[0]:
                best = (w, s)
        if best is None or best[0] < 1e-3:
            return False
        s = best[1]
        lo, hi = box[s]
        mm = (lo + hi) / 2
        p, q = dict(box), dict(box)
        p[s] = (lo, mm)
        q[s] = (mm, hi)
        stack += [p, q]
    return True


def fmt(v):
    if interval.isreal(v):
        return "[%.12g, %.12g]" % v
    return str(v)


# ------------------------------------------------------------------- reports
def load_findings():
    """finding ids listed in known_findings.txt"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+(F\d+)\s+property=(\S+)\s+(.*)", line)
            if m:
                out[m[1]] = (m[2].split(","), m[3].strip())
    return out


def spec_functions(prop):
    res = []
    for f in sorted(os.listdir(SPECS)):
        if not f.endswith(".py") or not f.lower().startswith(prop.lower()):
            continue
        t = ast.parse(open(os.path.join(SPECS, f)).read())
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith("ob_"):
                res.append((f[:-3], n))
    return res
