#!/usr/bin/env python3
"""lab.py FILE [-q]: apply each edit of FILE (python list LAB of (property or 'quiet', file, old, new)) to a scratch copy and run the check(s).

'quiet' entries are behaviour-preserving: every claimed check must stay quiet on them.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]


def sq(x):
    return "".join(x.split("#")[0].split())


def edit(s, old, new):
    """replace the consecutive lines of s that equal old up to blanks and comments; new is re-indented; returns text or match count"""
    crlf = "\r\n" in s
    ls = s.replace("\r\n", "\n").split("\n")
    want = [sq(x) for x in textwrap.dedent(old).strip("\n").split("\n")]
    hits = [i for i in range(len(ls) - len(want) + 1) if all(sq(ls[i + k]) == want[k] for k in range(len(want)))]
    if len(hits) != 1:
        return len(hits)
    i = hits[0]
    ind = ls[i][:len(ls[i]) - len(ls[i].lstrip())]
    nl = [ind + x if x.strip() else "" for x in textwrap.dedent(new).strip("\n").split("\n")]
    ls[i:i + len(want)] = nl
    t = "\n".join(ls)
    return t.replace("\n", "\r\n") if crlf else t


def replace(s, name, new):
    """new body of the method name; text before a line '@@' goes to module level in front of the class, text before '@@class' into the class"""
    import ast
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    tree = ast.parse(s)
    new = textwrap.dedent(new).strip("\n")
    mod = cl = ""
    if "\n@@\n" in new:
        mod, new = new.split("\n@@\n")
    if "\n@@class\n" in new:
        cl, new = new.split("\n@@class\n")
    ls = s.split("\n")
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == name:
                    b = f.body
                    if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str) and len(b) > 1:
                        b = b[1:]
                    ls[b[0].lineno - 1:b[-1].end_lineno] = ["        " + x for x in new.split("\n")]
                    if cl:
                        k = f.decorator_list[0].lineno - 1 if f.decorator_list else f.lineno - 1
                        ls[k:k] = ["    " + x for x in cl.split("\n")]
                    k = c.lineno - 1
                    ls[k:k] = mod.split("\n") if mod else []
                    t = "\n".join(ls)
                    return t.replace("\n", "\r\n") if crlf else t
    return 0


def within(s, name, old, new):
    """textual replacement inside the unparsed body (no docstring) of the method name"""
    import ast
    for c in ast.parse(s.replace("\r\n", "\n")).body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == name:
                    b = f.body
                    if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and len(b) > 1:
                        b = b[1:]
                    t = "\n".join(ast.unparse(x) for x in b)
                    if t.count(old) != 1:
                        return t.count(old)
                    return replace(s, name, t.replace(old, new))
    return 0


def one(i, item):
    prop, f, old, new = item
    w = "/tmp/labwork%d" % i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree("/repo/rockphypy", w + "/rockphypy")
    try:
        p = os.path.join(w, "rockphypy", f)
        s = open(p, newline="").read()
        if old.startswith("IN "):
            name, o = old[3:].split(": ", 1)
            t = within(s, name, o, new)
        else:
            t = replace(s, old[5:], new) if old.startswith("FUNC ") else edit(s, old, new)
        if isinstance(t, int):
            return "EDIT? %d matches: %r" % (t, old[:50])
        open(p, "w", newline="").write(t)
        try:
            compile(open(p).read(), p, "exec")
        except SyntaxError as e:
            return "SYNTAX %s" % e
        out = []
        for c in (CHECKS if prop in ("quiet", "any") else prop.split("+")):
            r = subprocess.run(["python3", "run.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
            v = "VIOLATION property=%s" % c in r.stdout and r.returncode == 1
            if prop == "any":
                if v:
                    out.append("%s caught" % c)
                elif r.returncode:
                    out.append("%s rc=%d" % (c, r.returncode))
            elif prop == "quiet":
                if r.returncode != 0:
                    out.append("ALARM %s: %s" % (c, r.stdout[-600:] + r.stderr[-300:]))
            else:
                out.append("%s %s" % (c, "caught" if v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:] + r.stderr[-200:])))
        return "; ".join(out) or ("MISSED by all" if prop == "any" else "quiet")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = [int(x) for x in sys.argv[2:]]
    items = [(i, x) for i, x in enumerate(ns["LAB"]) if not sel or i in sel]
    with cf.ThreadPoolExecutor(3) as ex:
        for (i, x), r in zip(items, ex.map(lambda t: one(*t), items)):
            print(i, x[0], x[1], repr(x[3][:70]), "->", r, flush=True)


if __name__ == "__main__":
    main()
