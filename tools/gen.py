#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from props import PROPS
from checks import CHECKS
NA = {}
try:
    from props import NA
except ImportError:
    pass
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the compiled LLVM IR with z3 (exact reals); counterexamples replayed on the real build",
                 "level": "model_checking", "level_note": p["note"] + "; bounds: " + CHECKS[p["id"]]["bounds"]} for p in PROPS if p["id"] in CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS],
     "notes": "run.py compiles every library unit of /repo's working tree with an instrumenting LLVM pass, explores the harness symbolically, and replays each counterexample on an uninstrumented build"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
s = ""
for p in PROPS:
    c = CHECKS.get(p["id"])
    s += "\n### %s — %s\n" % (p["id"], p["title"])
    if not c:
        s += "Not claimed: %s.\n" % NA.get(p["id"], "check not built yet")
        continue
    s += "*Statement.* %s\n\n*Decided by* `harness/%s`: %s.\n\n*Bounds:* %s. *Limits of the claim:* %s.\n\n*Beyond the tests:* %s.\n" % (
        p["statement"], c["harness"][0], p["how"], c["bounds"], p["note"], p["why"])
    for a in c.get("assumptions", []):
        s += "\n*Assumption:* %s.\n" % a
d = V + "/DESIGN.md"
t = open(d).read()


def put(tag, body):
    global t
    b, e = "<!-- %s begin -->" % tag, "<!-- %s end -->" % tag
    t = t[:t.index(b) + len(b)] + "\n" + body + "\n" + t[t.index(e):]


put("properties", s)
rows = "| property | commit | what failed |\n|---|---|---|\n"
kn = json.load(open(V + "/known_findings.json"))["findings"]
for k in kn:
    w = k["what"]
    if k["status"] == "fixed":
        q = w.split(" ", 3)
        rows += "| %s | %s | %s |\n" % (k["property"], q[2], q[3])
    else:
        rows += "| %s | not repaired | %s |\n" % (k["property"], w)
put("fixes", rows)
rows = "| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
for n in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    if os.path.exists(V + "/seeded/%s/meta.json" % n):
        x = json.load(open(V + "/seeded/%s/meta.json" % n))
        rows += "| %s | %s | %s | %s | %s |\n" % (n, x["property"], x["what_it_breaks"], x["needs"], res.get(n, "not run"))
put("seeded", rows)
open(d, "w").write(t)
