#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta.py and checks.py."""
import json, os, checks, meta
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(meta.PROPS.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["obs"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in sorted(meta.NA.items())]}
for i in sorted(checks.CHECKS):
    p = meta.PROPS[i]
    m["checks"].append({"property": i, "quick_cmd": f"python3 run.py check {i} --tier quick", "thorough_cmd": f"python3 run.py check {i} --tier thorough",
        "technique": p.get("technique", meta.TECH), "level": "model_checking", "level_note": p["level_note"]})
    assert i not in meta.NA
assert set(meta.PROPS) == set(checks.CHECKS) | set(meta.NA), set(meta.PROPS) ^ (set(checks.CHECKS) | set(meta.NA))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
