#!/usr/bin/env python3
"""Decide one property on the current source of /repo (or $JV_ROOT)."""
import json
import os
import resource
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from jv.index import Index  # noqa: E402
from jv.spec import Broken, Evaluator, Ob  # noqa: E402
import props  # noqa: E402


def known_findings():
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: "):
                # finding: property=P14 key=<key> <what fails>
                parts = line[len("finding: "):].strip().split(" ", 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                out[d["property"], d["key"]] = parts[2]
    return out


FAILED = []  # rules that broke down: the number of obligations says nothing then


def rule(name):
    from jv import rules, rules2, rules3, rules4, rules5, rules6

    for m in (rules6, rules5, rules4, rules3, rules2, rules):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def obligations(p, ix, ev, obs):
    for r in p["rules"]:
        if r[0] == "eq":
            found = ev.equations(r[1])
            if len(r) > 2:
                found = [o for o in found if any(o.key.startswith(k) for k in r[2])]
            obs += [(r[1], o) for o in found]
        else:
            f = rule(r[1])
            try:
                found = f(ix, ev, *r[2:])
            except Broken:
                raise
            except Exception as x:  # an engine defect is not evidence of anything
                if os.environ.get("JV_DEBUG"):
                    raise
                found = [Ob(r[1], "undecided", "", "internal %r" % (x,))]
                FAILED.append(r[1])
            obs += [(r[1], o) for o in found]


def run(p, root):
    """The analysis on a thread of its own (deep recursion), cut off well before the runner's limit."""
    box = {"obs": [], "error": None, "ix": None, "done": False}

    def work():
        try:
            box["ix"] = ix = Index(root)
            obligations(p, ix, Evaluator(ix), box["obs"])
            box["done"] = True
        except (Broken, SyntaxError) as x:
            box["error"] = x

    threading.stack_size(512 << 20)
    th = threading.Thread(target=work, daemon=True)
    th.start()
    th.join(780)
    return box


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("JV_ROOT", "/repo")
    p = {q["id"]: q for q in props.PROPS}.get(pid)
    if p is None or not p["rules"]:
        print("unknown property %s" % pid)
        return 2
    t0 = time.time()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30 if hard == resource.RLIM_INFINITY else min(14 << 30, hard), hard))
    box = run(p, root)
    ix, obs = box["ix"], list(box["obs"])
    if box["error"] is not None:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, box["error"]))
        return 2
    if ix is None:
        print("ANALYSIS-BROKEN property=%s the source could not be indexed" % pid)
        return 2
    if not box["done"]:
        obs.append(("time", Ob("the analysis", "undecided", "", "did not finish in time or failed")))
    elif len(obs) < p["floor"] and not FAILED:
        print("ANALYSIS-BROKEN property=%s only %d obligations found, %d expected" % (pid, len(obs), p["floor"]))
        return 2
    known = known_findings()
    bad, knowns = [], []
    for rule, o in obs:
        if o.status == "known":
            (knowns if (pid, o.key) in known else bad).append((rule, o))
        elif o.status == "violated":
            bad.append((rule, o))
    analysed = set()
    for _, o in obs:
        analysed |= set(o.inlined)
    by = {}
    for rule, o in obs:
        d = by.setdefault(rule, {"obligations": 0, "ok": 0, "undecided": 0, "violated": 0, "known": 0})
        d["obligations"] += 1
        d[o.status] += 1
    cov = {
        "explanation": "Static analysis of the current source under %s (nothing is executed): each obligation "
                       "compares the value graph of one public observable, computed by abstract interpretation of the "
                       "syntax tree with calls resolved through the type annotations, with its reference equation, or "
                       "applies one structural rule to that graph; all inputs are symbolic." % root,
        "rule": "; ".join(r[1] for r in p["rules"]),
        "obligations": len(obs),
        "discharged": sum(1 for _, o in obs if o.status == "ok"),
        "undecided": sum(1 for _, o in obs if o.status == "undecided"),
        "by_rule": by,
        "functions_analysed": len(analysed),
        "modules_parsed": sum(1 for m in ix.modules if not m.startswith("jvspec.")),
        "classes_indexed": len(ix.classes),
        "source_digest": ix.digest(),
        "samples": [{"rule": r, "obligation": o.key, "status": o.status, "where": o.where} for r, o in obs[:12]],
        "undecided_obligations": [{"rule": r, "obligation": o.key, "why": o.detail[:200]} for r, o in obs
                                  if o.status == "undecided"],
        "known_findings": [o.key for _, o in knowns],
    }
    ed = os.environ.get("JV_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + ".json"), "w", encoding="utf-8") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
                   "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 3), "violations": len(bad)},
                  fh, indent=1)
        fh.write("\n")
    for _, o in knowns:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o.key, known[pid, o.key]))
    for rule, o in obs:
        if o.status == "undecided":
            print("undecided %s %s: %s" % (rule, o.key, o.detail[:160]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (
        pid, len(obs), cov["discharged"], cov["undecided"], len(bad), time.time() - t0))
    if bad:
        path = os.path.join(ed, pid + ".violation.txt")
        with open(path, "w", encoding="utf-8") as fh:
            for rule, o in bad:
                fh.write("rule %s, obligation %s\n  at %s\n  %s\n" % (rule, o.key, o.where, o.detail))
        for rule, o in bad[:8]:
            print("  %s %s at %s: %s" % (rule, o.key, o.where, o.detail[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


ASSUMPTIONS = [
    "annotations of parameters and fields are truthful; fields are set only by code of the package",
    "numbers are exact reals (no rounding, no NaN); `assert` statements hold",
    "collections handed in by the user are the declared kinds; sets are iterated in an unspecified order",
    "standard library functions mean what their documentation says (table in jv/library.py)",
]

if __name__ == "__main__":
    code = main(sys.argv)
    sys.stdout.flush()
    os._exit(code)
