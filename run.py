#!/usr/bin/env python3
"""run.py <property> : decide one property on the current tree of /repo.

exit 0: no obligation is violated; exit 1 + VIOLATION line otherwise.
Never imports or executes the repository: it parses it and interprets it abstractly.
"""
import ast
import json
import multiprocessing as mp
import gc
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa import check, front, gen  # noqa: E402

RULES = json.load(open(os.path.join(HERE, "rules.json")))


WIDE = json.load(open(os.path.join(HERE, "wide.json"))) if os.path.exists(os.path.join(HERE, "wide.json")) else {}


def work(item):
    prop, mod, name, tier, seed = item[:5]
    global S
    fdef = FD[(mod, name)]
    t0 = time.time()
    ob = S.run_ob(prop, mod, fdef, wide=item[5] if len(item) > 5 else None)
    if len(item) > 5:
        name += "~wide"
    res = []
    if ob.error is None:
        try:
            for c, v, d in check.decide_ob(ob, tier, seed, FIND):
                res.append((c.kind, str(c.label), v, d, len(c.pairs)))
        except RecursionError:
            ob.error = "recursion in decision"
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                raise
            ob.error = "analyser: %s: %s" % (type(e).__name__, e)
    fid = getattr(ob, "raise_finding", None)
    hard = [t for t in ob.tops if not t.startswith(("uninitialised element", "compare opaque"))]
    if hard:
        # shapes, facts and raises reached after an unmodelled construct are not definite
        for i, (kind, label, v, d, n) in enumerate(res):
            if v == "bad" and isinstance(d, str) and kind != "differs" and label not in EFFECTS:
                res[i] = (kind, label, "undecided", "%s, after an unmodelled construct (%s)" % (d, hard[0]), n)
    if ob.raised and hard:
        ob.error = ob.error or "raises after an unmodelled construct (%s)" % hard[0]
    elif ob.raised:
        res.append(("call", "returns a value", "bad", "definitely raises " + ob.raised, 1))
    return dict(name=name, mod=mod, title=ob.title, res=res, error=ob.error, called=sorted(ob.called), sites=ob.sites,
                tops=ob.tops[:5], boxes=getattr(ob, "boxes", 0), wall=time.time() - t0,
                ranges={k: list(v) for k, v in ob.ranges.items()})


EFFECTS = ("no nondeterministic or ambient effect", "module, class and default-argument state unchanged")


def main():
    global S, FD, FIND
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    FIND = {k: v for k, v in check.load_findings().items() if prop in v[0]}
    try:
        S = check.Session()
    except (SyntaxError, check.PyRaise) as e:
        # the package cannot be imported: every guarantee is gone
        return report(prop, tier, seed, t0, [], [dict(where="rockphypy", what="package does not load: %s" % e, ob="load")], [])
    fns = gen.functions(prop, S) + check.spec_functions(prop)
    if only:
        fns = [f for f in fns if only in f[1].name]
    FD = {(m, n.name): n for m, n in fns}
    items = [(prop, m, n.name, tier, seed) for m, n in fns]
    # the same obligations over every value the formulas admit, far outside the usual ranges
    items += [i + (WIDE[prop][i[1] + "." + i[2]],) for i in items if i[1] + "." + i[2] in WIDE.get(prop, {})]
    gc.collect()
    gc.freeze()
    gc.disable()
    nproc = min(8, os.cpu_count() or 1)
    if os.environ.get("SA_DEBUG") or len(items) < 3:
        outs = [work(i) for i in items]
    else:
        with mp.get_context("fork").Pool(nproc) as pool:
            outs = pool.map(work, items, chunksize=1)
    viol, known = [], []
    for o in outs:
        where = ", ".join(check.loc_of(m, q) for m, q in o["called"]) or "rockphypy"
        for kind, label, v, d, n in o["res"]:
            if v == "bad":
                viol.append(dict(ob=o["name"], title=o["title"], rule=kind, claim=label, detail=d, where=where,
                                 functions=[q for _, q in o["called"]]))
            elif v == "known":
                known.append((d, o["name"], label))
    if os.environ.get("SA_VERBOSE"):
        for o in outs:
            print("%-40s %5.2fs boxes=%d err=%s" % (o["name"], o["wall"], o["boxes"], o["error"]))
            for kind, label, v, d, n in o["res"]:
                if v not in ("proved",) or os.environ.get("SA_VERBOSE") == "2":
                    print("    %-9s %-8s %s  %s" % (v, kind, label, d))
    if os.environ.get("SA_TOPS"):
        for o in outs:
            if o["tops"]:
                print("tops", o["name"], o["tops"])
    return report(prop, tier, seed, t0, outs, viol, known)


def report(prop, tier, seed, t0, outs, viol, known):
    cnt = {}
    elems = 0
    funcs = set()
    sites = 0
    und = []
    for o in outs:
        funcs |= {m + "." + q for m, q in o["called"]}
        sites += o["sites"]
        if o["error"]:
            cnt["undecided"] = cnt.get("undecided", 0) + 1
            und.append("%s: %s" % (o["name"], o["error"]))
        for kind, label, v, d, n in o["res"]:
            cnt[v] = cnt.get(v, 0) + 1
            elems += n
            if v == "undecided":
                und.append("%s/%s: %s" % (o["name"], label, d))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tot = sum(cnt.values())
    samples = []
    for o in outs[:400:max(1, len(outs) // 6)]:
        samples.append({"obligation": o["name"], "title": o["title"], "functions": [q for _, q in o["called"]],
                        "ranges": dict(list(o["ranges"].items())[:6]),
                        "claims": [(l, v) for _, l, v, _, _ in o["res"][:4]]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's source: " + RULES.get(prop, "") +
            " Each obligation relates value-graph terms built from the syntax trees; 'proved' = equal value numbers "
            "(or interval inclusion) for all inputs, 'held' = interval enclosures could not be separated on any analysed box, "
            "'undecided' = construct outside the model, never reported as a violation.",
            "obligation_functions": len(outs), "claims": tot, "scalar_relations": elems,
            "proved": cnt.get("proved", 0), "held_not_separated": cnt.get("held", 0),
            "undecided": cnt.get("undecided", 0), "known_findings": cnt.get("known", 0), "violated": cnt.get("bad", 0),
            "interval_boxes": sum(o["boxes"] for o in outs),
            "functions_analysed": len(funcs), "functions": sorted(funcs), "call_sites_interpreted": sites,
            "undecided_reasons": und[:20], "samples": samples,
        },
        "assumptions": ["real arithmetic for the code's numbers (rounding is outside the property)",
                        "the models of numpy/scipy/pandas in sa/npmodel.py"],
        "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for fid, ob, label in known:
        if fid not in seen:
            seen.add(fid)
            print("KNOWN-FINDING: property=%s %s %s" % (prop, fid, FIND[fid][1]))
    print("%s: %d obligations, %d claims (%d scalar relations): %s; %d functions; %.1fs" % (
        prop, len(outs), tot, elems, ", ".join("%s=%d" % kv for kv in sorted(cnt.items())), len(funcs), time.time() - t0))
    for u in und[:10]:
        print("  undecided:", u[:200])
    if viol:
        path = os.path.join(HERE, "evidence", prop + ".violation.json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1, default=str)
        for v in viol[:12]:
            print("  %s: %s [%s] %s" % (v["where"], v.get("title", v["ob"]), v.get("claim", ""), str(v.get("detail", v.get("what")))[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not outs:
        print("no obligations")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
