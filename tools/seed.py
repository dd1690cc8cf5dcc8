#!/usr/bin/env python3
"""seed.py FILE: validate planted bugs described in FILE (python list BUGS of dicts) and save them under seeded/.

Each: id, property, file, edits [(old, new)], demo (python source, asserts), needs, breaks.
Works in a scratch copy of /repo; /repo itself is not touched.
"""
import json
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lab  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        if os.path.exists(W):
            shutil.rmtree(W)
        sh("cp -a /repo %s" % W)
        sh("git checkout -q -- .", cwd=W)
        bad = None
        eds = b["edits"]
        for e in eds:
            f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            p = os.path.join(W, f)
            s = open(p, newline="").read()
            t = lab.edit(s, old, new)
            if isinstance(t, int):
                bad = "edit matches %d times: %r" % (t, old[:60])
                break
            open(p, "w", newline="").write(t)
        if bad:
            print(b["id"], "FAIL", bad)
            continue
        patch = sh("git diff", cwd=W).stdout
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", newline="").write(subprocess.run("git diff", shell=True, cwd=W, capture_output=True).stdout.decode())
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nd="$(cd "$(dirname "$0")" && pwd)"\n[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
        r2 = sh("bash %s/demo.sh" % d, cwd=W)
        # tests in the scratch copy
        t = sh(". /opt/vp/env.sh; cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s MPLBACKEND=Agg /opt/venv/bin/pytest -q -p no:cacheprovider pytest 2>&1 | tail -5" % (W, W))
        env = dict(os.environ, VERIF_REPO=W)
        c = sh("python3 run.py %s" % b["property"], cwd=HERE, env=env)
        caught = "VIOLATION property=%s" % b["property"] in c.stdout and c.returncode == 1
        ok = r1.returncode == 0 and r2.returncode != 0
        print(b["id"], b["property"], "demo(clean)=%d demo(bug)=%d" % (r1.returncode, r2.returncode), "OK" if ok else "BAD-DEMO " + (r1.stderr[-300:] if r1.returncode else r2.stdout),
              "| tests:", t.stdout.strip().splitlines()[-1:] , "| caught" if caught else "| MISSED rc=%d" % c.returncode)
    shutil.rmtree(W, ignore_errors=True)


main()
