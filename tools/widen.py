#!/usr/bin/env python3
"""widen.py [PROP...]: how far can the ranges of each obligation be stretched with every claim still decided alike?

Writes wide.json: the stretched ranges, per property and obligation.  The checks run each obligation a second time
over them, so that a branch on values outside the usual ranges is seen too.
"""
import ast
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import run  # noqa: E402
from sa import check, gen  # noqa: E402

LIMIT = 6.0


def cands(name, lo, hi):
    """wider intervals, widest first, as (lo, hi) texts"""
    if lo == hi:
        return [], []
    his, los = [], []
    if 0 < hi <= 1:
        his = [x for x in (0.999, (hi + 1) / 2, hi * 1.5) if hi < x < 1]
    elif hi > 0:
        his = [hi * 20, hi * 5, hi * 2, hi * 1.3]
    if lo > 0:
        los = [lo / 100, lo / 10, lo / 3, lo / 1.5]
    elif lo < 0 and hi <= 0:
        los = [lo * 5, lo * 2]
    elif lo < 0:
        los = [lo * 5, lo * 2]
    return los, his


def verdicts(prop, mod, name, wide):
    t = time.time()
    r = run.work((prop, mod, name, "quick", 1, wide) if wide else (prop, mod, name, "quick", 1))
    if r["error"]:
        return None
    v = [(k, l, x) for k, l, x, d, n in r["res"]]
    if any(x not in ("proved", "held", "known") for _, _, x in v):
        return None
    return v, time.time() - t


def one(item):
    prop, mod, name = item
    fdef = run.FD[(mod, name)]
    base = verdicts(prop, mod, name, None)
    if base is None:
        return item, {}
    rng = {}
    for a in fdef.args.args:
        m = check.RNG.match(a.annotation.value)
        if m["flags"] and m["flags"].strip() == "int":
            continue
        rng[a.arg] = (float(m["lo"]), float(m["hi"]))
    cur = {}
    t0 = time.time()

    def fits(w):
        r = verdicts(prop, mod, name, w)
        if r is None or r[1] > max(LIMIT, 3 * base[1]):
            return False
        return [x[:2] for x in r[0]] == [x[:2] for x in base[0]] and all(
            not (x[2] == "proved" and y[2] != "proved") and (x[2] == "known") == (y[2] == "known") for x, y in zip(base[0], r[0]))
    # everything at once first
    for k in range(4):
        w = {}
        for n, (lo, hi) in rng.items():
            ls, hs = cands(n, lo, hi)
            w[n] = (str(ls[min(k, len(ls) - 1)] if ls else lo), str(hs[min(k, len(hs) - 1)] if hs else hi))
        if w and fits(w):
            cur = w
            break
    if not cur:
        for n, (lo, hi) in rng.items():
            if time.time() - t0 > 240:
                break
            ls, hs = cands(n, lo, hi)
            best = (str(lo), str(hi))
            for h in hs:
                w = dict(cur)
                w[n] = (best[0], str(h))
                if fits(w):
                    best = w[n]
                    break
            for l in ls:
                w = dict(cur)
                w[n] = (str(l), best[1])
                if fits(w):
                    best = w[n]
                    break
            if best != (str(lo), str(hi)):
                cur[n] = best
    return item, cur


def main():
    p = os.path.join(HERE, "wide.json")
    out = json.load(open(p)) if os.path.exists(p) else {}
    props = sys.argv[1:] or [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    for prop in props:
        run.FIND = {k: v for k, v in check.load_findings().items() if prop in v[0]}
        run.S = check.Session()
        fns = gen.functions(prop, run.S) + check.spec_functions(prop)
        run.FD = {(m, n.name): n for m, n in fns}
        t0 = time.time()
        with mp.get_context("fork").Pool(8) as pool:
            res = pool.map(one, [(prop, m, n.name) for m, n in fns], chunksize=1)
        out[prop] = {i[1] + "." + i[2]: w for i, w in sorted(res) if w}
        print(prop, len(fns), "obligations,", len(out[prop]), "stretched,", sum(len(w) for w in out[prop].values()), "ranges, %.0f s" % (time.time() - t0), flush=True)
        with open(p, "w") as f:
            json.dump(out, f, indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
