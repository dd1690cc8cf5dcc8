#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and rules.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["rockphypy/%s.py" % m for m in "AVO Anisotropy BW EM Emp Fluid GM Perm QI utils".split()]
PINS = "Each existing test evaluates one or two points of one option setting of a function and compares a few digits; "

P = []
NA = []


def prop(id, title, statement, text, why, files, mech, technique, note, rule, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, files=files, mech=mech, technique=technique, note=note, rule=rule))


def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, files=files, mech=mech, technique=None))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "tools", "table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant")}
            d["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
            f.write(json.dumps(d) + "\n")
    checks = []
    rules = {}
    for p in P:
        if p["technique"] is None:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
        rules[p["id"]] = p["rule"]
    m = {"version": 1, "setup_cmd": "python3 run.py C18 >/dev/null", "checks": checks, "not_applicable": NA,
         "notes": "All checks parse /repo's current working tree and interpret it abstractly; none imports or runs it. "
                  "SA_VERBOSE=1 lists every obligation."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    json.dump(rules, open(os.path.join(HERE, "rules.json"), "w"), indent=1)


main()
