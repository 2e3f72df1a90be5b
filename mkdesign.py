#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from design.in.md, meta.py, checks.py, known_findings.jsonl and seeded.md."""
import json, os, checks, meta
V = os.path.dirname(os.path.abspath(__file__))
s = open(V + "/design.in.md").read()
p = "## The properties and their checks\n\n"
for i, m in sorted(meta.PROPS.items()):
    p += f"### {i} {m['title']}\n\n{m['statement']}\n\n"
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        hs = sorted({j["h"] for j in c["jobs"]("quick")})
        p += f"*Decided by* symbolic execution of {', '.join('`harness/%s.c`' % h for h in hs)} with {', '.join(m['files'])} ({len(c['jobs']('quick'))} jobs quick, {len(c['jobs']('thorough'))} thorough). "
        p += f"*Bounds:* {c['bounds']}. "
        if c.get("outside"): p += f"*Outside:* {c['outside']}. "
        p += f"*Beyond tests:* {m['why']}\n\n"
    else:
        p += f"Not applicable: {meta.NA[i]}\n\n"
f = "".join(f"* {k['text']}\n" for k in map(json.loads, open(V + "/known_findings.jsonl")) if k["status"] == "fixed")
k = "".join(f"* known: {k['property']}: {k['what']}\n" for k in map(json.loads, open(V + "/known_findings.jsonl")) if k["status"] == "known")
if k: f += "\nRecorded and not repaired:\n\n" + k
d = open(V + "/seeded.md").read() if os.path.exists(V + "/seeded.md") else ""
open(V + "/DESIGN.md", "w").write(s.replace("@PROPS@", p.rstrip()).replace("@FIXES@", f.rstrip()).replace("@SEEDED@", d.rstrip()).rstrip() + "\n")
