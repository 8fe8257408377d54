#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["rules"], p["id"]
    cmd = "python3 check.py %s" % p["id"]
    checks.append({
        "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "technique": "static analysis: " + (p["technique"] or props.EQ), "level": "other",
        "level_note": (p["note"] + " " if p["note"] else "") + props.NOTE})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'",
               "checks": checks, "not_applicable": na}, fh, indent=1)
    fh.write("\n")
