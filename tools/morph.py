#!/usr/bin/env python3
"""morph.py [names]: rewrite the whole package in a scratch copy with behaviour-preserving transformations; every check has to stay quiet.

Each transformation is applied to every public function at once; the repository's own tests are run on the result as a sanity check of
the transformation (with -t).
"""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]


def funcs(tree):
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    yield c, f


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def stored(f):
    s = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s


def body(f):
    b = f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        return b[:1], b[1:]
    return [], b


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


def t_rename(tree):
    for c, f in funcs(tree):
        m = {v: "x_%d" % i for i, v in enumerate(sorted(stored(f) - set(params(f))))}
        f.body = [Rename(m).visit(s) for s in f.body]


def t_rebind(tree):
    "parameters copied to locals at the top, used through the copies"
    for c, f in funcs(tree):
        m = {v: "in_" + v for v in params(f) if v != "self"}
        d, b = body(f)
        b = [Rename(m).visit(s) for s in b]
        pre = [ast.Assign([ast.Name(m[v], ast.Store())], ast.Name(v, ast.Load())) for v in m]
        f.body = d + pre + b


class Pow(ast.NodeTransformer):
    def __init__(self, kind):
        self.kind = kind

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow):
            if self.kind == "power":
                return np_call("power", n.left, n.right) if not isinstance(n.left, ast.Constant) and not neg(n.right) else n
            if isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.BinOp(n.left, ast.Mult(), n.left) if self.kind == "mul" else np_call("square", n.left)
            if neg1(n.right) and self.kind == "mul":
                return ast.BinOp(ast.Constant(1), ast.Div(), n.left)
        return n


def np_call(name, *args):
    return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), name, ast.Load()), list(args), [])


def neg(n):
    return isinstance(n, ast.UnaryOp)


def neg1(n):
    return isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and n.operand.value == 1


def t_mul(tree):
    for c, f in funcs(tree):
        Pow("mul").visit(f)


def t_square(tree):
    for c, f in funcs(tree):
        Pow("square").visit(f)
    need_np(tree)


def t_power(tree):
    for c, f in funcs(tree):
        Pow("power").visit(f)
    need_np(tree)


def need_np(tree):
    if not any(isinstance(s, ast.Import) and any(a.name == "numpy" for a in s.names) for s in tree.body):
        tree.body.insert(0, ast.Import([ast.alias("numpy", "np")]))


class Commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and not strish(n.left) and not strish(n.right):
            n.left, n.right = n.right, n.left
        return n


def strish(n):
    return any(isinstance(x, ast.Constant) and isinstance(x.value, str) or isinstance(x, (ast.List, ast.Tuple)) for x in ast.walk(n))


def t_commute(tree):
    for c, f in funcs(tree):
        Commute().visit(f)


class Div(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not isinstance(n.left, ast.Constant):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1), ast.Div(), n.right))
        return n


def t_recip(tree):
    for c, f in funcs(tree):
        Div().visit(f)


class Dist(ast.NodeTransformer):
    "a*(b+c) -> a*b + a*c"
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and isinstance(n.right, ast.BinOp) and isinstance(n.right.op, (ast.Add, ast.Sub)) and not strish(n):
            return ast.BinOp(ast.BinOp(n.left, ast.Mult(), n.right.left), n.right.op, ast.BinOp(n.left, ast.Mult(), n.right.right))
        return n


def t_distribute(tree):
    for c, f in funcs(tree):
        Dist().visit(f)


def t_inner(tree):
    "whole body moved to a nested function"
    for c, f in funcs(tree):
        d, b = body(f)
        if f.name == "__init__":
            continue
        ps = params(f)
        inner = ast.FunctionDef("_impl", args(ps), b, [])
        f.body = d + [inner, ast.Return(ast.Call(ast.Name("_impl", ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]


def args(ps):
    return ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, [])


def t_module(tree):
    "whole body moved to a private module-level function"
    out = []
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            helpers = []
            for f in s.body:
                if isinstance(f, ast.FunctionDef) and f.name != "__init__":
                    d, b = body(f)
                    ps = params(f)
                    h = "_%s_%s" % (s.name, f.name)
                    helpers.append(ast.FunctionDef(h, args(ps), b, []))
                    f.body = d + [ast.Return(ast.Call(ast.Name(h, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
            out += helpers
        out.append(s)
    tree.body = out


class Extract:
    "every assignment of an arithmetic expression becomes a call of a helper with its free variables"
    def __init__(self, tree, kind):
        self.k = 0
        self.kind = kind
        self.glob = {"np", "sp", "plt", "pd", "utils", "EM", "GM", "Fluid", "AVO", "QI", "BW", "Anisotropy", "Empirical", "Permeability", "fsolve", "odeint", "warnings", "kde2d"}
        self.out = []

    def stmt(self, s, cls):
        for fld in ("body", "orelse"):
            if hasattr(s, fld) and isinstance(getattr(s, fld), list):
                setattr(s, fld, [self.stmt(x, cls) for x in getattr(s, fld)])
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
            if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(s.value)):
                return s
            import builtins
            fv = sorted({n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)} - self.glob - set(dir(builtins)))
            h = "_h%d" % self.k
            self.k += 1
            fn = ast.FunctionDef(h, args(fv), [ast.Return(s.value)], [])
            if self.kind == "static":
                fn.decorator_list = [ast.Name("staticmethod", ast.Load())]
                call = ast.Attribute(ast.Name(cls, ast.Load()), h, ast.Load())
            else:
                call = ast.Name(h, ast.Load())
            self.out.append(fn)
            s.value = ast.Call(call, [], [ast.keyword(v, ast.Name(v, ast.Load())) for v in fv]) if self.kind == "kw" else ast.Call(call, [ast.Name(v, ast.Load()) for v in fv], [])
        return s


def extract(tree, kind):
    out = []
    e = Extract(tree, kind)
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            e.out = []
            for f in s.body:
                if isinstance(f, ast.FunctionDef):
                    f.body = [e.stmt(x, s.name) for x in f.body]
            if kind == "static":
                s.body += e.out
            else:
                out += e.out
        out.append(s)
    tree.body = out


def t_helpers(tree):
    extract(tree, "pos")


def t_statics(tree):
    extract(tree, "static")


def t_kwhelpers(tree):
    extract(tree, "kw")


class InvertIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


def t_invert(tree):
    for c, f in funcs(tree):
        InvertIf().visit(f)


class While(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)):
            return n
        While.k += 1
        it, ix = "_seq%d" % While.k, "_pos%d" % While.k
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [n.iter], [])),
                ast.Assign([ast.Name(ix, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(ast.Name(ix, ast.Load()), [ast.Lt()], [ast.Call(ast.Name("len", ast.Load()), [ast.Name(it, ast.Load())], [])]),
                          [ast.Assign([n.target], ast.Subscript(ast.Name(it, ast.Load()), ast.Name(ix, ast.Load()), ast.Load()))] + n.body +
                          [ast.AugAssign(ast.Name(ix, ast.Store()), ast.Add(), ast.Constant(1))], [])]


def t_while(tree):
    for c, f in funcs(tree):
        While().visit(f)


class Inline:
    "single-assignment scalars of straight-line code substituted into their uses"


def t_inline(tree):
    for c, f in funcs(tree):
        d, b = body(f)
        cnt = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                cnt[n.id] = cnt.get(n.id, 0) + 1
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                cnt[n.target.id] = 99
        ps = set(params(f))
        unstable = {v for v in cnt if cnt[v] > 1 or v in ps}
        sub = {}
        out = []
        subscripted = {n.value.id for n in ast.walk(f) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}

        class S(ast.NodeTransformer):
            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Load) and n.id in sub:
                    return sub[n.id]
                return n
        for s in b:
            s = S().visit(s)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
                v = s.targets[0].id
                names = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                if cnt[v] == 1 and v not in ps and not names & unstable and not names & subscripted and v not in subscripted and len(ast.dump(s.value)) < 900:
                    sub[v] = s.value
                    continue
            out.append(s)
        f.body = d + out


class Temps(ast.NodeTransformer):
    pass


def t_temps(tree):
    "three-address form: every binary sub-expression of an assignment in its own temporary"
    k = [0]

    def flat(e, pre):
        if isinstance(e, ast.BinOp):
            l, r = flat(e.left, pre), flat(e.right, pre)
            k[0] += 1
            t = "t_%d" % k[0]
            pre.append(ast.Assign([ast.Name(t, ast.Store())], ast.BinOp(l, e.op, r)))
            return ast.Name(t, ast.Load())
        return e

    def blk(b):
        out = []
        for s in b:
            for fld in ("body", "orelse"):
                if hasattr(s, fld) and isinstance(getattr(s, fld), list):
                    setattr(s, fld, blk(getattr(s, fld)))
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
                pre = []
                s.value = flat(s.value, pre)
                out += pre
            out.append(s)
        return out
    for c, f in funcs(tree):
        f.body = blk(f.body)


def t_reorder(tree):
    "independent neighbouring assignments exchanged"
    def names(n, ctx):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}

    def pure(s):
        return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and not any(isinstance(x, ast.Call) and "plt" in ast.dump(x) for x in ast.walk(s))

    def blk(b):
        for s in b:
            for fld in ("body", "orelse"):
                if hasattr(s, fld) and isinstance(getattr(s, fld), list):
                    blk(getattr(s, fld))
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i+1]
            if pure(p) and pure(q) and not names(p, ast.Store) & (names(q, ast.Load) | names(q, ast.Store)) and not names(q, ast.Store) & names(p, ast.Load):
                b[i], b[i+1] = q, p
                i += 2
            else:
                i += 1
    for c, f in funcs(tree):
        blk(f.body)


class Rad(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
            if n.func.attr in ("deg2rad", "radians"):
                return ast.BinOp(ast.BinOp(np_call("asarray", n.args[0]), ast.Mult(), ast.Attribute(ast.Name("np", ast.Load()), "pi", ast.Load())), ast.Div(), ast.Constant(180.0))
            if n.func.attr == "sqrt":
                return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
            if n.func.attr == "tan":
                return ast.BinOp(np_call("sin", n.args[0]), ast.Div(), np_call("cos", n.args[0]))
            if n.func.attr == "asanyarray":
                n.func.attr = "asarray"
            if n.func.attr == "dot" and False:
                return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
        return n


def t_calls(tree):
    for c, f in funcs(tree):
        Rad().visit(f)


class Dot(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
            if n.func.attr == "dot":
                return np_call("matmul", *n.args)
            if n.func.attr == "sum" and len(n.args) == 1:
                return ast.Call(ast.Attribute(np_call("asarray", n.args[0]), "sum", ast.Load()), [], n.keywords)
            if n.func.attr == "mean":
                return np_call("average", *n.args)
            if n.func.attr == "empty":
                n.func.attr = "zeros"
            if n.func.attr == "array" and not n.keywords:
                n.func.attr = "asarray"
        return n


def t_calls2(tree):
    for c, f in funcs(tree):
        Dot().visit(f)


class Tern(ast.NodeTransformer):
    "if/else with one assignment each -> conditional expression; returns through a variable"
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) for x in (n.body[0], n.orelse[0])) and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
            return ast.Assign([n.body[0].targets[0]], ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n

    def visit_Return(self, n):
        if n.value is not None:
            return [ast.Assign([ast.Name("_result", ast.Store())], n.value), ast.Return(ast.Name("_result", ast.Load()))]
        return n


def t_ternary(tree):
    for c, f in funcs(tree):
        Tern().visit(f)


class Lam(ast.NodeTransformer):
    k = 0


def t_lambda(tree):
    "elementwise arithmetic through lambdas bound to locals"
    for c, f in funcs(tree):
        out = []
        d, b = body(f)
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
                Lam.k += 1
                nm = "_l%d" % Lam.k
                out.append(ast.Assign([ast.Name(nm, ast.Store())], ast.Lambda(args([]), s.value)))
                s.value = ast.Call(ast.Name(nm, ast.Load()), [], [])
            out.append(s)
        f.body = d + out


def t_classmethod(tree):
    "static methods delegating to class methods"
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            extra = []
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and any(isinstance(x, ast.Name) and x.id == "staticmethod" for x in f.decorator_list):
                    d, b = body(f)
                    ps = params(f)
                    extra.append(ast.FunctionDef("_cm_" + f.name, args(["cls"] + ps), b, [ast.Name("classmethod", ast.Load())]))
                    f.body = d + [ast.Return(ast.Call(ast.Attribute(ast.Name(c.name, ast.Load()), "_cm_" + f.name, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
            c.body += extra


def t_decorator(tree):
    "static methods wrapped by a pass-through decorator with functools.wraps"
    src = ast.parse("import functools\ndef _passthrough(fn):\n    @functools.wraps(fn)\n    def inner(*args, **kwargs):\n        return fn(*args, **kwargs)\n    return inner\n")
    i = next(i for i, s in enumerate(tree.body) if isinstance(s, ast.ClassDef))
    tree.body[i:i] = src.body
    for c, f in funcs(tree):
        if any(isinstance(x, ast.Name) and x.id == "staticmethod" for x in f.decorator_list):
            f.decorator_list.append(ast.Name("_passthrough", ast.Load()))


def t_trycatch(tree):
    "body in try/finally, warnings silenced, an assert on the arguments"
    for c, f in funcs(tree):
        d, b = body(f)
        if f.name == "__init__":
            continue
        f.body = d + [ast.With([ast.withitem(ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "errstate", ast.Load()), [], [ast.keyword("all", ast.Constant("ignore"))]), None)],
                               [ast.Try(b, [], [], [ast.Expr(ast.Constant(None))])])]
    need_np(tree)


def t_floats(tree):
    "integer literals in arithmetic written as floats"
    class F(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if not isinstance(n.op, (ast.Pow, ast.FloorDiv, ast.Mod)) and not strish(n):
                for s in ("left", "right"):
                    x = getattr(n, s)
                    if isinstance(x, ast.Constant) and type(x.value) is int:
                        setattr(n, s, ast.Constant(float(x.value)))
            return n

        def visit_Subscript(self, n):
            return n

        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id == "range":
                return n
            return self.generic_visit(n)
    for c, f in funcs(tree):
        F().visit(f)


def t_dict(tree):
    "locals of straight-line prefixes kept in a dictionary"
    for c, f in funcs(tree):
        d, b = body(f)
        if any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp)) for s in b for n in ast.walk(s)):
            continue
        loc = stored(f)
        if not loc:
            continue

        class D(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in loc:
                    return ast.Subscript(ast.Name("env", ast.Load()), ast.Constant(n.id), n.ctx)
                return n
        pre = [ast.Assign([ast.Name("env", ast.Store())], ast.Dict([ast.Constant(p) for p in params(f) if p in loc], [ast.Name(p, ast.Load()) for p in params(f) if p in loc]))]
        f.body = d + pre + [D().visit(s) for s in b]


TS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def run(name):
    w = "/tmp/morph_" + name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        if TESTS:
            subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        else:
            shutil.copytree("/repo/rockphypy", w + "/rockphypy")
        for fn in os.listdir(w + "/rockphypy"):
            if not fn.endswith(".py") or fn == "__init__.py":
                continue
            p = os.path.join(w, "rockphypy", fn)
            tree = ast.parse(open(p).read())
            for part in name.split("+"):
                TS[part](tree)
            ast.fix_missing_locations(tree)
            open(p, "w").write(ast.unparse(tree))
        out = []
        if TESTS:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1"))
            out.append("tests rc=%d %s" % (r.returncode, r.stdout.strip().split("\n")[-1]))
        for c in CHECKS if not ONLY else ONLY:
            r = subprocess.run(["python3", "run.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
            if r.returncode != 0:
                out.append("ALARM %s: %s" % (c, r.stdout[-900:] + r.stderr[-500:]))
            elif os.environ.get("MORPH_SHOW"):
                out.append(r.stdout.strip().split("\n")[-1])
        return "\n   ".join(out) or "quiet"
    finally:
        if not KEEP:
            shutil.rmtree(w, ignore_errors=True)


TESTS = "-t" in sys.argv
KEEP = "-k" in sys.argv
ONLY = [a[2:] for a in sys.argv if a.startswith("-c")]
if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(TS)
    with cf.ThreadPoolExecutor(4) as ex:
        for n, r in zip(names, ex.map(run, names)):
            print(n, "->", r, flush=True)
