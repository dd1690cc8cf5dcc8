"""Array lengths at which the analysed source may behave differently.

A value array of three elements covers every longer one as long as no code looks at the
length.  Where code does (comparisons, remainders, steps and bounds built from len, size or
shape), the constants it uses are collected here and obligations are repeated with arrays
just beyond them.
"""
import ast
import os

LO, HI = 4, 300
SIZE_CALLS = {"len", "size", "shape", "alen", "count_nonzero", "ndim"}
SIZE_ATTRS = {"size", "shape", "nbytes"}


def _ints(n):
    """constants, including those of simple arithmetic"""
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return [int(n.value)]
    if isinstance(n, ast.BinOp):
        a, b = _ints(n.left), _ints(n.right)
        if len(a) == 1 and len(b) == 1:
            try:
                v = {ast.Add: lambda: a[0] + b[0], ast.Mult: lambda: a[0] * b[0], ast.Sub: lambda: a[0] - b[0],
                     ast.Pow: lambda: a[0] ** b[0] if 0 <= b[0] < 12 else 0, ast.LShift: lambda: a[0] << b[0] if 0 <= b[0] < 12 else 0}.get(type(n.op))
                if v:
                    return [v()]
            except Exception:
                pass
        return a + b
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        return [x for e in n.elts for x in _ints(e)]
    return []


def _func(fn, consts):
    tainted = set()

    def sizey(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                if nm in SIZE_CALLS:
                    return True
            if isinstance(x, ast.Attribute) and x.attr in SIZE_ATTRS:
                return True
            if isinstance(x, ast.Name) and x.id in tainted:
                return True
        return False

    def ints(n):
        out = _ints(n)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in local:
                out += local[x.id]
            elif isinstance(x, ast.Name) and x.id in consts:
                out += consts[x.id]
            elif isinstance(x, ast.Attribute) and x.attr in consts:
                out += consts[x.attr]
        return out
    local = {}
    a = fn.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if _ints(d):
            local[p.arg] = _ints(d)
    for _ in range(3):
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and getattr(n, "value", None) is not None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            # the array itself is not a size; arithmetic on sizes is
                            if sizey(n.value) and _scalar(n.value, tainted):
                                tainted.add(x.id)
                            if _ints(n.value) and isinstance(n.value, (ast.Constant, ast.BinOp)):
                                local[x.id] = _ints(n.value)
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare):
            parts = [n.left] + n.comparators
            if any(sizey(p) for p in parts):
                for p in parts:
                    out.update(ints(p))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.RShift)) and sizey(n.left):
            out.update(ints(n.right))
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if nm in ("range", "arange") and any(sizey(x) for x in n.args):
                for x in n.args:
                    out.update(ints(x))
            if nm in ("min", "max", "minimum", "maximum", "divmod", "array_split", "islice", "resize", "take") and (len(n.args) > 1):
                if nm in ("array_split", "islice", "resize", "take") or any(sizey(x) for x in n.args):
                    for x in n.args:
                        out.update(ints(x))
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    out.update(abs(v) for v in ints(x))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            pass
    return {abs(c) for c in out}


def _scalar(n, tainted):
    """is the expression a length rather than an array built from one"""
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return nm in SIZE_CALLS or nm in ("int", "min", "max", "divmod", "abs", "sum", "prod", "bool", "any", "all")
    if isinstance(n, ast.Attribute):
        return n.attr in SIZE_ATTRS
    if isinstance(n, ast.Name):
        return n.id in tainted
    if isinstance(n, ast.Subscript):
        return _scalar(n.value, tainted)
    if isinstance(n, ast.BinOp):
        return _scalar(n.left, tainted) or _scalar(n.right, tainted)
    if isinstance(n, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp)):
        return True
    if isinstance(n, (ast.Tuple, ast.List)):
        return any(_scalar(e, tainted) for e in n.elts)
    return False


def probes(root):
    """{file: {length}} worth trying besides three elements"""
    out = {}
    pk = os.path.join(root, "rockphypy")
    for d, _, fs in sorted(os.walk(pk)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            try:
                t = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except SyntaxError:
                continue
            consts = {}
            for n in ast.walk(t):
                if isinstance(n, (ast.Module, ast.ClassDef)):
                    for s in n.body:
                        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.BinOp)) and _ints(s.value):
                            for x in s.targets:
                                if isinstance(x, ast.Name):
                                    consts[x.id] = _ints(s.value)
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    if isinstance(n, ast.Lambda):
                        continue
                    for c in _func(n, consts):
                        if LO <= c <= HI:
                            out.setdefault(f, {}).setdefault(c, set()).add(n.name)
    return out
