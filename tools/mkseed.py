#!/usr/bin/env python3
"""Plant bugs: mkseed.py FILE [ID...] reads definitions and keeps those confirmed in a scratch copy.

FILE is Python defining SEEDS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)].
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", **env)
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=e, timeout=200)


DEMO = """#!/bin/bash
# Exit 0 when the property holds on the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0 MPLBACKEND=Agg
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" "$here/demo.py"
"""


def one(s):
    w = "/tmp/seedw/" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    out = "/tmp/seedw/%s.new" % s["id"]
    shutil.rmtree(out, ignore_errors=True)
    try:
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns("__pycache__"))
        for path, old, new in s["edits"]:
            p = os.path.join(w, path)
            t = open(p).read()
            if t.count(old) != 1:
                return "%s: edit matches %d times: %r" % (s["id"], t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", w).stdout
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, "/repo")
        if a.returncode:
            return "%s: demo fails on the unchanged tree: %s" % (s["id"], (a.stdout + a.stderr)[-500:])
        b = sh("bash %s/demo.sh" % out, w)
        if not b.returncode:
            return "%s: demo passes with the change" % s["id"]
        r = sh("%s -m pytest -q tests -p no:cacheprovider --timeout=300 -p no:randomly 2>&1 | tail -4" % PY, w,
               PYTHONPATH=w)
        if " failed" in r.stdout or "142 passed" not in r.stdout:
            return "%s: tests: %s" % (s["id"], r.stdout[-300:])
        c = sh("python3 %s/check.py %s" % (HERE, s["property"]), HERE, JV_ROOT=w, JV_EVID=out)
        for f in os.listdir(out):
            if f not in ("patch.diff", "demo.sh", "demo.py", "meta.json"):
                os.remove(os.path.join(out, f))
        dst = os.path.join(HERE, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        v = [l for l in c.stdout.split("\n") if l.startswith("  ") or l.startswith("undecided")]
        return "%s: kept, %s %s\n      demo: %s" % (
            s["id"], "CAUGHT" if c.returncode == 1 else "missed (exit %d)" % c.returncode,
            v[0][:230] if v else "", (b.stdout + b.stderr).strip().split("\n")[-1][:150])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if len(sys.argv) > 2:
        seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, seeds):
            print(r, flush=True)


if __name__ == "__main__":
    main()
