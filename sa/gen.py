"""Obligations generated from the public API table (registry.py).

The generated text is a spec like the hand-written ones: it is parsed and interpreted
abstractly, never executed.
"""
import ast
import itertools
import math
import os
import re

from . import front, registry, sizes

HDR = """
import numpy as np
from spec import eq, le, differs, fact, copy, raises, statesame, noeffects, scribble
from rockphypy import EM, GM, Fluid, AVO, Anisotropy, BW, Empirical, Permeability, utils, QI
from specs.lib import vti6, hti6, svti6, rows, lens
"""

MATS = {"vti": ("vti6", ["40..60", "35..55", "8..14", "10..15", "10..15"]),
        "hti": ("hti6", ["25..40", "30..45", "5..12", "8..14", "6..10"]),
        "svti": ("svti6", ["0.05..0.08", "0.05..0.09", "-0.01..-0.001", "0.08..0.2", "0.13..0.2"])}


class B:
    """one obligation under construction"""

    def __init__(self, name, doc):
        self.name, self.doc = name, doc
        self.args, self.lines = [], []

    def sym(self, name, rng):
        self.args.append((name, rng))
        return name

    def add(self, s):
        self.lines.append("    " + s)

    def text(self):
        return "def %s(%s):\n    %r\n%s\n" % (self.name, ", ".join("%s: %r" % a for a in self.args), self.doc, "\n".join(self.lines))


def isint(rng):
    lo, hi = (float(x) for x in rng.split(".."))
    return math.floor(hi) - math.ceil(lo) >= 2


def introng(rng):
    lo, hi = (float(x) for x in rng.split(".."))
    return "int %d..%d" % (math.ceil(lo), math.floor(hi))


def combos(e, cap=8):
    os_ = [p.opts for p in e.pars if p.kind == "="]
    c = list(itertools.product(*os_))
    return c[:cap]


def bind(e, vals, combo):
    """argument list: vals maps parameter -> expression; options from combo"""
    it = iter(combo)
    out = []
    for p in e.pars:
        out.append(next(it) if p.kind == "=" else vals[p.name])
    return out


def call(e, vals, combo):
    return "%s(%s)" % (e.name, ", ".join(bind(e, vals, combo)))


def whole(b, p, suf="", aslist=False):
    """symbol(s) for a parameter consumed as a whole (a, l, M); returns an expression"""
    nm = p.name + suf
    if p.kind == "M":
        f, rs = MATS[p.spec]
        return "%s(%s)" % (f, ", ".join(b.sym("%s_%d" % (nm, i), r) for i, r in enumerate(rs)))
    if "," in p.spec:
        es = [b.sym("%s_%d" % (nm, i), r) for i, r in enumerate(p.spec.split(","))]
        return ("[%s]" if aslist else "np.array([%s])") % ", ".join(es)
    return b.sym(nm, p.spec + (" list" if aslist else ""))


def scal(b, p, suf=""):
    x = b.sym(p.name + suf, p.rng())
    return x


def anyarg(b, p, suf="", arr=True, n=3, aslist=False):
    """most general argument of the parameter: arrays wherever arrays are accepted"""
    if p.kind in ("a", "l", "M"):
        return whole(b, p, suf, aslist and p.kind == "l")
    if p.kind == "e" or (p.kind == "v" and arr):
        return b.sym(p.name + suf, p.rng() + "[%d]" % n)
    return scal(b, p, suf)


def widen(p):
    """the same parameter far outside its usual range"""
    if p.kind in "=M":
        return p
    out = []
    for r in p.spec.split(","):
        t = r[r.index("["):] if "[" in r else ""
        lo, hi = (float(x) for x in r.split("[")[0].split(".."))
        m = max(abs(lo), abs(hi))
        out.append("%r..%r%s" % (-m, 3*m, t))
    return registry.Par(p.name, p.kind, ",".join(out))


def c01(e):
    obs = []
    ew = registry.Entry(e.name, [widen(p) for p in e.pars])
    ints = [isint(p.rng()) if p.kind in "ve" else False for p in e.pars]
    ei = registry.Entry(e.name, [registry.Par(p.name, p.kind, introng(p.rng()) + p.spec[len(p.rng()):]) if i else p for p, i in zip(e.pars, ints)])
    sc = [p for p in e.pars if p.kind == "s" and "," not in p.spec]

    def arrays(which):
        """scalar parameters given as arrays: whether or not the call succeeds, the arrays stay as they were"""
        return registry.Entry(e.name, [registry.Par(p.name, "e", p.spec) if p.name in which else p for p in ew.pars])
    todo = [(e, False, False, ""), (e, True, False, "_lists"), (ew, False, True, "_wide"), (ei, False, False, "_int")]
    if sc:
        todo.append((arrays({p.name for p in sc}), False, True, "_arrays"))
        todo += [(arrays({p.name}), False, True, "_array_" + p.name) for p in sc]
    for n, _ in [(4, 0)] + probes(e):
        todo.append((e, False, False, "_len%d" % n))
    if any(p.kind == "M" for p in e.pars):
        todo.append((e, False, True, "_full"))
    if any(p.kind in "ve" or p.kind in "al" and "," not in p.spec for p in e.pars):
        todo.append((e, False, True, "_gap"))
    doc = {"_lists": " (lists)", "_wide": " (any values)", "_int": " (integers)", "_full": " (any matrix)", "_gap": " (gaps in the data)", "": ""}
    for e, aslist, wide, sfx in todo:
        if aslist and not any(p.kind == "l" for p in e.pars):
            continue
        if sfx == "_int" and not any(ints):
            continue
        b = B("ob_%s%s" % (e.id, sfx), "%s leaves its arguments as they were%s" % (
            e.name, doc.get(sfx, " (length %s)" % sfx[4:] if sfx.startswith("_len") else " (arrays for numbers)")))
        vals = {}
        mut = []
        for p in e.pars:
            if p.kind == "=":
                continue
            if sfx == "_full" and p.kind == "M":
                x = b.sym(p.name, "-20..60[6,6]")
            elif sfx == "_gap" and (p.kind in "ve" or p.kind in "al" and "," not in p.spec):
                x = anyarg(b, p)
                n = int(p.spec[p.spec.index("[") + 1:-1]) if p.kind in "al" else 3
                x = "np.array([%s])" % ", ".join("np.nan" if i == n // 2 else "%s[%d]" % (x, i) for i in range(n))
            else:
                x = anyarg(b, p, aslist=aslist, n=int(sfx[4:]) if sfx.startswith("_len") else 3)
            if p.kind != "s":
                b.add("x_%s = %s" % (p.name, x))
                b.add("k_%s = copy(x_%s)" % (p.name, p.name))
                vals[p.name] = "x_" + p.name
                mut.append(p.name)
            else:
                vals[p.name] = x
        if not mut:
            continue
        for combo in combos(e):
            if wide:
                b.add("try:")
                b.add("    " + call(e, vals, combo))
                b.add("except Exception:")
                b.add("    pass")
            else:
                b.add(call(e, vals, combo))
            for m in mut:
                b.add("eq(x_%s, k_%s, %r, tol=0.0)" % (m, m, "%s unchanged%s" % (m, " (%s)" % ", ".join(combo) if combo else "")))
        obs.append(b)
    return obs


_PR = {}


def probes(e):
    """lengths at which the source of this function (or of code it may share) might change its ways"""
    from . import check
    root = check.REPO
    if root not in _PR:
        _PR[root] = sizes.probes(root)
    own = FILES.get(e.cls)
    out = {}
    for f, cs in _PR[root].items():
        if f == own or f not in FILES.values() or f == "utils.py":
            for c in cs:
                out[c + 1] = sorted({0, 1, c - 1, c})
    return sorted(out.items())[:4]


FILES = {"EM": "EM.py", "GM": "GM.py", "Fluid": "Fluid.py", "AVO": "AVO.py", "Anisotropy": "Anisotropy.py", "BW": "BW.py",
         "Empirical": "Emp.py", "Permeability": "Perm.py", "utils": "utils.py", "QI": "QI.py"}


def c02(e):
    b = B("ob_" + e.id, "%s: result is a function of its arguments alone" % e.name)
    vals, vals2 = {}, {}
    for p in e.pars:
        if p.kind == "=":
            continue
        vals[p.name] = anyarg(b, p)
        vals2[p.name] = anyarg(b, p, "_2")
    for combo in combos(e, 6):
        lab = " (%s)" % ", ".join(combo) if combo else ""
        b.add("z_r = %s" % call(e, vals, combo))
        b.add("z_s = copy(z_r)")
        b.add("z_t = %s" % call(e, vals2, combo))
        b.add("z_u = copy(z_t)")
        b.add("z_q = %s" % call(e, vals, combo))
        b.add("eq(z_q, z_s, 'same arguments, same result%s')" % lab.replace("'", ""))
        b.add("eq(z_r, z_s, 'earlier result untouched by later calls%s')" % lab.replace("'", ""))
        b.add("eq(z_t, z_u, 'interleaved result untouched%s')" % lab.replace("'", ""))
        cp = {k: "copy(%s)" % v for k, v in vals.items()}
        b.add("z_r = %s" % call(e, cp, combo))
        b.add("scribble(z_r)")
        b.add("eq(%s, z_s, 'changing a result leaves later results alone%s')" % (call(e, cp, combo), lab.replace("'", "")))
    b.add("statesame()")
    b.add("noeffects()")
    w = B("ob_%s_wide" % e.id, "%s: extreme arguments leave nothing behind" % e.name)
    ew = registry.Entry(e.name, [widen(p) for p in e.pars])
    va, vw = {}, {}
    for p, q in zip(e.pars, ew.pars):
        if p.kind != "=":
            va[p.name] = anyarg(w, p)
            vw[p.name] = anyarg(w, q, "_w")
    for combo in combos(e, 6):
        lab = (" (%s)" % ", ".join(combo) if combo else "").replace("'", "")
        w.add("z_s = copy(%s)" % call(e, va, combo))
        w.add("try:")
        w.add("    " + call(e, vw, combo))
        w.add("except Exception:")
        w.add("    pass")
        w.add("eq(%s, z_s, 'same result after any other call%s')" % (call(e, va, combo), lab))
    w.add("statesame()")
    w.add("noeffects()")
    return [b, w]


def c06(e):
    vec = [p for p in e.pars if p.kind in "ve"]
    if not vec:
        return wholeint(e)
    obs = []
    b = B("ob_" + e.id, "%s: arrays are evaluated element by element, in order" % e.name)
    sc, ar = {}, {}
    for p in e.pars:
        if p.kind == "=":
            continue
        if p in vec:
            ar[p.name] = b.sym(p.name + "_v", p.rng() + "[3]")
            sc[p.name] = b.sym(p.name, p.rng())
        else:
            sc[p.name] = whole(b, p) if p.kind in "alM" else scal(b, p)

    def one(x, p):
        return "np.array([%s])" % x if p.kind == "e" else x
    es = [p for p in vec if p.kind == "e"]
    for combo in combos(e, 4):
        lab = ("; " + ", ".join(combo) if combo else "").replace("'", "")
        groups = [vec]
        if len(vec) > 1:
            # each vector argument on its own; arguments that must be arrays always travel together
            singles = [[p] for p in vec if p.kind == "v"]
            groups += [g + es for g in singles] if es else singles
        seen = set()
        for g in groups:
            key = tuple(sorted(p.name for p in g))
            if key in seen:
                continue
            seen.add(key)
            va = dict(sc)
            for p in g:
                va[p.name] = ar[p.name]
            b.add("z_g = %s" % call(e, va, combo))
            b.add("fact(lens(z_g, 3), %r)" % ("shape with arrays %s%s" % (", ".join(key), lab)))
            for k in range(3):
                v1 = dict(sc)
                for p in g:
                    v1[p.name] = one("%s[%d]" % (ar[p.name], k), p)
                b.add("eq(rows(z_g, %d), rows(%s, 0), %r)" % (k, call(e, v1, combo), "element %d with arrays %s%s" % (k, ", ".join(key), lab)))
        # one-element arrays
        v1, v2 = dict(sc), dict(sc)
        for p in vec:
            v1[p.name] = "np.array([%s])" % sc[p.name]
            v2[p.name] = one(sc[p.name], p)
        b.add("z_g = %s" % call(e, v1, combo))
        b.add("fact(lens(z_g, 1), %r)" % ("shape with one-element arrays" + lab))
        if not es:
            b.add("eq(rows(z_g, 0), rows(%s, 0), %r)" % (call(e, v2, combo), "one-element arrays" + lab))
    obs.append(b)
    b = B("ob_%s_len" % e.id, "%s: arrays of every length are evaluated element by element" % e.name)
    for n, ks in [(2, range(2)), (4, range(4))] + [(n, ks) for n, ks in probes(e)]:
        sc, ar = {}, {}
        for p in e.pars:
            if p.kind == "=":
                continue
            if p in vec:
                ar[p.name] = b.sym("%s_%d" % (p.name, n), p.rng() + "[%d]" % n)
            else:
                sc[p.name] = whole(b, p, "_%d" % n) if p.kind in "alM" else scal(b, p, "_%d" % n)
        for combo in combos(e, 4):
            lab = ("; " + ", ".join(combo) if combo else "").replace("'", "")
            b.add("z_g = %s" % call(e, dict(sc, **ar), combo))
            b.add("fact(lens(z_g, %d), %r)" % (n, "shape, length %d%s" % (n, lab)))
            for k in ks:
                v1 = dict(sc)
                for p in vec:
                    v1[p.name] = one("%s[%d]" % (ar[p.name], k), p)
                b.add("eq(rows(z_g, %d), rows(%s, 0), %r)" % (k, call(e, v1, combo), "element %d of %d%s" % (k, n, lab)))
    obs.append(b)
    ints = [p for p in vec if isint(p.rng())]
    if ints:
        b = B("ob_%s_int" % e.id, "%s: integer input is as good as float input" % e.name)
        sc, ar = {}, {}
        for p in e.pars:
            if p.kind == "=":
                continue
            if p in ints:
                ar[p.name] = b.sym(p.name + "_v", introng(p.rng()) + "[3]")
            elif p.kind == "e":
                ar[p.name] = b.sym(p.name + "_v", p.rng() + "[3]")
            else:
                sc[p.name] = whole(b, p) if p.kind in "alM" else scal(b, p)
        for combo in combos(e, 4):
            lab = ("; " + ", ".join(combo) if combo else "").replace("'", "")
            va, vf = dict(sc), dict(sc)
            for p in e.pars:
                if p.name in ar:
                    va[p.name] = ar[p.name]
                    vf[p.name] = "(%s*1.0)" % ar[p.name]
            b.add("eq(%s, %s, %r)" % (call(e, va, combo), call(e, vf, combo), "integer arrays" + lab))
            if not es:
                va, vf = dict(sc), dict(sc)
                for p in ints:
                    va[p.name] = ar[p.name] + "[0]"
                    vf[p.name] = "(%s[0]*1.0)" % ar[p.name]
                b.add("eq(%s, %s, %r)" % (call(e, va, combo), call(e, vf, combo), "integer scalars" + lab))
        obs.append(b)
    if e.name not in NOGRID and not any(p.kind == "e" for p in e.pars):
        b = B("ob_%s_grid" % e.id, "%s: a grid is evaluated row by row" % e.name)
        sc, ar = {}, {}
        for p in e.pars:
            if p.kind == "=":
                continue
            if p in vec:
                ar[p.name] = b.sym(p.name + "_v", p.rng() + "[6]")
            else:
                sc[p.name] = whole(b, p) if p.kind in "alM" else scal(b, p)
        for combo in combos(e, 4):
            lab = ("; " + ", ".join(combo) if combo else "").replace("'", "")
            b.add("z_g = %s" % call(e, dict(sc, **{k: "%s.reshape(2, 3)" % v for k, v in ar.items()}), combo))
            for k in range(2):
                b.add("z_r = %s" % call(e, dict(sc, **{n: "%s[%d:%d]" % (v, 3*k, 3*k + 3) for n, v in ar.items()}), combo))
                b.add("eq(rows(z_g, %d), z_r, %r)" % (k, "row %d of a grid%s" % (k, lab)))
        obs.append(b)
    if e.name not in NOGAP:
        b = B("ob_%s_gap" % e.id, "%s: a gap in the data does not spoil the other samples" % e.name)
        sc, ar = {}, {}
        for p in e.pars:
            if p.kind == "=":
                continue
            if p in vec:
                ar[p.name] = b.sym(p.name + "_v", p.rng() + "[3]")
            else:
                sc[p.name] = whole(b, p) if p.kind in "alM" else scal(b, p)
        for combo in combos(e, 4):
            lab = ("; " + ", ".join(combo) if combo else "").replace("'", "")
            b.add("z_f = %s" % call(e, dict(sc, **ar), combo))
            b.add("z_g = %s" % call(e, dict(sc, **{n: "np.array([%s[0], np.nan, %s[2]])" % (v, v) for n, v in ar.items()}), combo))
            b.add("fact(lens(z_g, 3), %r)" % ("shape with a gap" + lab))
            for k in (0, 2):
                b.add("eq(rows(z_g, %d), rows(z_f, %d), %r)" % (k, k, "element %d next to a gap%s" % (k, lab)))
        obs.append(b)
    obs += wholeint(e)
    return obs


# functions whose root finder refuses gaps
NOGAP = {"GM.Digby"}
# functions that take series only
NOGRID = {"GM.Digby", "Fluid.Biot", "QI.matrix_modulus", "QI.den_matrix"}


def wholeint(e):
    """lists and arrays consumed as a whole, given as integers"""
    def cint(spec):
        return ",".join(introng(r.split("[")[0]) + (r[r.index("["):] if "[" in r else "") for r in spec.split(","))
    ints = [p for p in e.pars if p.kind in "als" and all(isint(r.split("[")[0]) for r in p.spec.split(",")) or p.kind == "M" and p.spec != "svti"]
    if not ints:
        return []
    b = B("ob_%s_ints" % e.id, "%s: integers are as good as floats" % e.name)
    vals, one = {}, {}
    for p in e.pars:
        if p.kind == "=":
            continue
        if p in ints:
            if p.kind == "M":
                f, rs = MATS[p.spec]
                vals[p.name] = "%s(%s)" % (f, ", ".join(b.sym("%s_%d" % (p.name, i), introng(r)) for i, r in enumerate(rs)))
            else:
                vals[p.name] = whole(b, registry.Par(p.name, p.kind, cint(p.spec)))
            one[p.name] = "(%s*1.0)" % vals[p.name]
        else:
            vals[p.name] = one[p.name] = anyarg(b, p, n=2)
    for combo in combos(e, 4):
        lab = ("; " + ", ".join(combo) if combo else "").replace("'", "")
        b.add("eq(%s, %s, %r)" % (call(e, vals, combo), call(e, one, combo), "integers" + lab))
    return [b]


# arguments a function accepts but, per its theory, does not use: the grain term of Brown and
# Korringa for an isotropic mineral is 1/K0
UNUSED = {("Fluid.Brown_Korringa_" + f, "G0") for f in ("dry2sat", "sat2dry", "sub")}
# accepted and documented, but ignored by the code (known findings)
UNUSEDF = {("QI.cst_vels", "D0"): "F09", ("QI.cal_v_const", "Dc"): "F10"}


def c07(e):
    """every documented input influences the result"""
    b = B("ob_" + e.id, "%s: every argument influences the result" % e.name)
    vals = {}
    for p in e.pars:
        if p.kind != "=":
            vals[p.name] = anyarg(b, p, arr=False, n=1)
    alt = {}
    for p in e.pars:
        if p.kind != "=":
            alt[p.name] = anyarg(b, p, "_2", arr=False, n=1)
    cs = combos(e, 12)
    b.add("z_r = %s" % call(e, vals, cs[0]))
    for p in e.pars:
        if p.kind == "=" or (e.name, p.name) in UNUSED:
            continue
        v = dict(vals)
        v[p.name] = alt[p.name]
        fid = UNUSEDF.get((e.name, p.name))
        b.add("differs(z_r, %s, %r%s)" % (call(e, v, cs[0]), p.name, ", finding=%r" % fid if fid else ""))
    i = 0
    for j, p in enumerate(q for q in e.pars if q.kind == "="):
        for o in p.opts[1:]:
            c = list(cs[0])
            c[j] = o
            b.add("differs(z_r, %s, %r)" % (call(e, vals, c), "%s=%s" % (p.name, o.replace("'", ""))))
    return [b]



# documented defaults
DEFAULTS = {
    "AVO.EI_ref": {"norm": "True"}, "Anisotropy.Bond_trans": {"axis": "3"},
    "BW.co2_brine": {"brie_component": "None", "bw": "False"}, "EM.cripor_reuss": {"den": "False"},
    "EM.HS": {"bound": "'upper'"}, "EM.Eshelby_Cheng": {"mat": "False"}, "EM.hudson": {"order": "1", "axis": "3"},
    "Empirical.ramm_porosity": {"HB": "True"}, "Empirical.empirical_StPeter": {"sample": "1"},
    "GM.johnson": {"path": "'together'"}, "QI.cal_v_const": {"Cn": "None"},
}


def c03(e):
    """keywords, class or instance, defaults"""
    b = B("ob_" + e.id, "%s: keyword, positional, class and instance calls agree; omitted options take their documented default" % e.name)
    vals = {}
    for p in e.pars:
        if p.kind != "=":
            vals[p.name] = anyarg(b, p, arr=False, n=2)
    for combo in combos(e, 12):
        args = bind(e, vals, combo)
        lab = (" (%s)" % ", ".join(combo) if combo else "").replace("'", "")
        kws = ["%s=%s" % (p.name, a) for p, a in zip(e.pars, args)]
        b.add("z_r = %s(%s)" % (e.name, ", ".join(args)))
        b.add("eq(%s(%s), z_r, %r)" % (e.name, ", ".join(kws), "by keyword" + lab))
        b.add("eq(%s(%s), z_r, %r)" % (e.name, ", ".join(kws[::-1]), "by keyword, any order" + lab))
        inst = "QI(np.array([3.0, 3.1]), np.array([0.2, 0.21]))" if e.cls == "QI" else e.cls + "()"
        b.add("eq(%s.%s(%s), z_r, %r)" % (inst, e.fn, ", ".join(args), "on an instance" + lab))
        df = DEFAULTS.get(e.name, {})
        opt = [(i, p) for i, p in enumerate(e.pars) if p.name in df]
        # leave out every trailing set of options whose value is the default
        for k in range(len(opt)):
            if all(args[i] == df[p.name] for i, p in opt[k:]):
                b.add("eq(%s(%s), z_r, %r)" % (e.name, ", ".join(args[:opt[k][0]]), "defaults of %s%s" % (", ".join(p.name for _, p in opt[k:]), lab)))
        for i, p in opt:
            if args[i] == df[p.name]:
                b.add("eq(%s(%s), z_r, %r)" % (e.name, ", ".join(a for j, a in enumerate(kws) if j != i), "default of %s%s" % (p.name, lab)))
    return [b]


# ---- dimensions: exponents of (p, q, l): stress p^2, density q^2, length l
DIMS = {"0": (0, 0, 0), "S": (2, 0, 0), "iS": (-2, 0, 0), "D": (0, 2, 0), "V": (1, -1, 0), "L": (0, 0, 1), "L2": (0, 0, 2), "F": (1, -1, -1),
        "E": (1, 1, 1), "iL": (0, 0, -1), "Z": (1, 1, 0)}
DIMTEXT = """
EM.VRH | 0 S -> S S S
EM.cripor | S S 0 0 -> S S
EM.cripor_reuss | S S 0 = -> S
EM.HS | 0 S S S S = -> S S
EM.Eshelby_Cheng | S S 0 0 S = -> *S
EM.hudson | S S S S 0 0 = = -> *S
EM.hudson_rand | S S S S 0 0 -> S S
EM.hudson_ortho | S S S S 0 0 -> *S
EM.hudson_cone | S S S S 0 0 0 -> *S
EM.PQ_vectorize | S S S S 0 -> 0 0
EM.Berryman_func | S S S 0 0 -> *S
EM.Swiss_cheese | S S 0 -> S S
EM.SC | 0 S S = -> S S
EM.Dilute_crack | S S 0 -> S S
EM.OConnell_Budiansky | S S 0 -> S S
EM.OConnell_Budiansky_fl | S S S 0 0 -> S S
EM.PQ | S S S S 0 -> 0 0
EM.SC_dilute | S S S S 0 = -> 0 0
EM.SC_flex | 0 = S S S S -> S S
EM.MT_average | 0 S S S S S S -> S S
GM.ThomasStieber | 0 0 0 -> 0 0
GM.silty_shale | 0 S S S S -> S S
GM.shaly_sand | 0 0 S S S S -> S S
GM.contactcement | S S S S 0 0 0 = -> S S
GM.hertzmindlin | S S 0 0 S 0 -> S S
GM.softsand | S S 0 0 0 S 0 -> S S
GM.Walton | S S 0 0 S 0 -> S S
GM.johnson | S S 0 0 0 0 = -> *S S S
GM.Digby | S S 0 0 S 0 -> S S
GM.stiffsand | S S 0 0 0 S 0 -> S S
GM.constantcement | 0 S S S S 0 0 0 = -> S S
GM.MUHS | S S S S 0 0 0 0 = -> S S
GM.pcm | 0 S S S 0 0 0 0 S S 0 = = 0 -> S S
GM.diluting | 0 S S 0 -> 0
GM.vpcm | 0 0 S S S 0 0 0 0 S S 0 = 0 -> S S
Fluid.Brie | S S 0 0 -> S
Fluid.Biot | S S S S D D E 0 L2 L 0 F -> V V V 0 0 0
Fluid.Biot_HF | S S S S D D 0 0 -> V V V
Fluid.Geertsma_Smit_HF | S S S S D D 0 0 -> V V
Fluid.Geertsma_Smit_LF | V V F 0 D L2 E -> V
Fluid.Gassmann | S S S S 0 -> S S
Fluid.Gassmann_sub | 0 S S S S -> S
Fluid.vels | S S S D S D 0 -> V V D
Fluid.Gassmann_vels | V V D D S D S S 0 -> V V
Fluid.Gassmann_approx | S S S 0 S -> S
Fluid.Brown_Korringa_dry2sat | iS S S S 0 -> *iS
Fluid.Brown_Korringa_sat2dry | iS S S S 0 -> *iS
Fluid.Brown_Korringa_sub | S S S S S 0 -> *S *iS
Fluid.Mavko_Jizba | V V V V S D D S 0 -> S S V V
Fluid.Squirt_anisotropic | iS iS -> *iS
Fluid.White_Dutta_Ode | S S S 0 D D D S S E E L2 L 0 F -> V iL S
AVO.AVO_HTI | D D S S 0 0 -> *0
AVO.Aki_Richards | 0 V V V V D D -> 0 0 0 0
AVO.zoeppritz | V V D V V D 0 -> 0 0
AVO.AVO_abe | V V D V V D -> 0 0 0 0 0
AVO.AVO_ortho | V V 0 0 0 0 0 D V V 0 0 0 0 0 D 0 -> 0 0
Anisotropy.Thomsen | S S S S S D 0 -> V V V 0 0 0
Anisotropy.Thomsen_Tsvankin | S S S S S S S S S -> 0 0 0 0 0 0 0
Anisotropy.Backus | L S S -> S S S S S
Anisotropy.Backus_log | V V D L -> S S S S S D
Anisotropy.vel_azi_HTI | S D 0 -> V V V
Anisotropy.vel_azi_VTI | S D 0 -> V V V
Anisotropy.Bond_trans | S 0 = -> *S
Empirical.krief | 0 S S -> S S S
Permeability.Kozeny_Carman | 0 L -> L2
Permeability.Kozeny_Carman_Percolation | 0 0 L 0 -> L2
Permeability.Panda_Lake | L 0 0 0 0 -> L2
Permeability.Panda_Lake_cem | 0 L -> L2
Permeability.Revil | 0 L -> L2
Permeability.Fredrich | 0 L 0 -> L2
Permeability.Bernabe | 0 0 L L -> L2
utils.V | S S D -> V V
utils.poi | S S -> 0
utils.lame | S S -> S
utils.M_from_V | D V V -> S S
utils.write_HTI_matrix | S S S S S -> *S
utils.write_VTI_compliance | iS iS iS iS iS -> *iS
utils.write_VTI_matrix | S S S S S -> *S
utils.write_matrix | S S S S S S S S S -> *S
utils.write_iso | S S -> *S
utils.crack_por | 0 0 -> 0
utils.v_to_c_VTI | V V V V V D -> *S
QI.matrix_modulus | 0 0 0 S S S -> S
QI.den_matrix | 0 0 0 D D D -> D
QI.cst_vels | 0 S D S 0 0 0 S S D S = 0 D D D -> V V
QI.cal_v_const | D S S D S S D S S D S 0 0 0 0 = = -> V V
"""


def dims():
    out = {}
    for line in DIMTEXT.strip().splitlines():
        n, r = (x.strip() for x in line.split("|"))
        a, b = r.split("->")
        out[n] = (a.split(), b.split())
    return out


def factor(d):
    """text of the scale factor, or None when it is one"""
    e = DIMS[d]
    num = ["z_%s**%d" % (n, x) if x > 1 else "z_" + n for n, x in zip("pql", e) if x > 0]
    den = ["z_%s**%d" % (n, -x) if x < -1 else "z_" + n for n, x in zip("pql", e) if x < 0]
    if not num and not den:
        return None
    return "(%s%s)" % ("*".join(num) or "1", "".join("/" + x for x in den))


def c04(e):
    D = dims().get(e.name)
    if D is None:
        return []
    ins, outs = D
    assert len(ins) == len(e.pars), e.name
    b = B("ob_" + e.id, "%s: changing the units of its arguments changes the results accordingly" % e.name)
    for n in "pql":
        b.sym("z_" + n, "0.5..2")
    vals, sc = {}, {}
    for p, d in zip(e.pars, ins):
        if p.kind == "=":
            continue
        x = anyarg(b, p, n=2, arr=False)
        vals[p.name] = x
        f = factor(d)
        sc[p.name] = "(%s*%s)" % (f, x) if f else x
    systems = (("", None), (", Pa", ("1e9", "1e3", "1e-3")), (", TPa", ("1e-9", "1e-3", "1e6")))
    for combo in combos(e, 8):
        b.add("z_a = %s" % call(e, vals, combo))
        for name, u in systems:
            def su(t, u=u):
                for n, v in zip("pql", u or ()):
                    t = re.sub(r"\bz_%s\b" % n, v, t)
                return t
            lab = (" (%s)" % ", ".join(combo) if combo else "").replace("'", "") + name
            b.add("z_b = %s" % call(e, {k: su(v) for k, v in sc.items()}, combo))
            for k, o in enumerate(outs):
                i = "[%d]" % k if len(outs) > 1 else ""
                f = factor(o.lstrip("*"))
                f = su(f) if f else f
                if o.startswith("*"):
                    b.add("eq(np.array(z_b%s), %snp.array(z_a%s), %r)" % (i, f + "*" if f else "", i, "result %d%s" % (k, lab)))
                else:
                    b.add("eq(z_b%s, %sz_a%s, %r)" % (i, f + "*" if f else "", i, "result %d%s" % (k, lab)))
    return [b]


# obligations of other specs that also decide this property (module, name)
ALSO = {
    "C04": [("C16_avo", n) for n in ("ob_velocity", "ob_mfromv")] + [("C15_fluid", n) for n in ("ob_vels", "ob_mj", "ob_gs_lf", "ob_gs_lf_slow", "ob_white_si")] +
           [("C14_gm", n) for n in ("ob_hm", "ob_walton", "ob_digby")] + [("C17_bw", n) for n in ("ob_reduced", "ob_gas", "ob_co2", "ob_oil", "ob_water", "ob_brine")] +
           [("C18_emp", n) for n in ("ob_vs", "ob_han", "ob_linear", "ob_other", "ob_kozeny", "ob_logs", "ob_grain", "ob_bloch")],
    "C03": [("C13_em", n) for n in ("ob_cripor_reuss", "ob_hs", "ob_hs_any", "ob_eshelby", "ob_hudson", "ob_hudson2", "ob_sc", "ob_sc_dilute", "ob_sc_flex")] +
           [("C14_gm", n) for n in ("ob_contactcement", "ob_constantcement", "ob_muhs", "ob_pcm_below", "ob_pcm_above", "ob_vpcm", "ob_johnson")] +
           [("C16_avo", n) for n in ("ob_ei", "ob_bond")] + [("C17_bw", "ob_mix")] + [("C18_emp", n) for n in ("ob_linear", "ob_other")] +
           [("C19_qi", n) for n in ("ob_cal", "ob_kde", "ob_kde_vs", "ob_plots")],
}


def also(prop):
    out = []
    import ast as _a
    from . import check
    for mod, name in ALSO.get(prop, ()):
        t = _a.parse(open(os.path.join(check.SPECS, mod + ".py")).read())
        hit = [n for n in t.body if isinstance(n, _a.FunctionDef) and n.name == name]
        assert hit, (mod, name)
        out.append((mod, hit[0]))
    return out


def functions(prop, S):
    return _gen(prop, S) + also(prop)


def _gen(prop, S):
    mk = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C06": c06, "C07": c07}.get(prop)
    if mk is None:
        return []
    src = [HDR]
    for e in registry.load():
        if prop != "C01":
            # at exactly 1 the shape factors are undefined (see C13)
            e.pars = [registry.Par(p.name, p.kind, p.spec.replace("..1[", "..0.99[")) if p.name in ("Alpha", "alpha") and p.spec.startswith("0.01..1[") else p
                      for p in e.pars]
        for b in mk(e):
            src.append(b.text())
    text = "\n".join(src)
    if os.environ.get("SA_GEN"):
        print(text)
    tree = ast.parse(text)
    path = "<generated %s>" % prop
    front._PARSED[path] = tree
    S.I.extra["specs.gen_" + prop] = path
    return [("gen_" + prop, n) for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("ob_")]
