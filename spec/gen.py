#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. A property is
claimed when harness/<id>.cpp exists, otherwise listed as not applicable with
the reason given here. `python3 spec/gen.py` regenerates both files."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=(), state=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), note=note, na=na))
I = "ndt_gslam/include/ndt_gslam/"
S = "ndt_gslam/src/"
exec(open(V + "/spec/props.py").read())
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "bash engine/build.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile /repo's sources as they are (a scratch copy under build/ only drops repeated default template arguments, which clang rejects and g++ accepts)."}
for p in P:
    h = "%s/harness/%s.cpp" % (V, p["id"])
    if os.path.exists(h) and not p["na"]:
        tags = [l.strip() for l in open(h) if l.startswith("//@")]
        bounds = "; ".join(l.split("bound:", 1)[1].strip() for l in tags if l.startswith("//@ bound:"))
        ass = "; ".join(l.split("assume:", 1)[1].strip() for l in tags if l.startswith("//@ assume:"))
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 run_check.py %s" % p["id"],
            "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
            "technique": "symbolic execution of the LLVM IR of /repo's code, z3 decides every path's assertions, native replay",
            "level": "model_checking",
            "level_note": "Every value within: " + bounds + ". Assumes: " + (ass or "nothing beyond the engine") + "." + (" " + p["note"] if p["note"] else "")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
md = open(V + "/spec/design_head.md").read()
kf = json.load(open(V + "/known_findings.json"))
md += "".join("* %s\n" % x for x in kf["fixed"])
if kf["findings"]:
    md += "\n## Known findings (not repaired)\n\n" + "".join("* %s: %s\n" % (x["property"], x["what"]) for x in kf["findings"])
md += "\n## Properties\n"
for p in P:
    md += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    h = "%s/harness/%s.cpp" % (V, p["id"])
    if any(c["property"] == p["id"] for c in m["checks"]):
        tags = [l.strip() for l in open(h) if l.startswith("//@")]
        md += "Anchored at " + ", ".join("`%s`" % f for f in p["files"]) + ". Decided by symbolic execution of:\n\n"
        for l in tags:
            if l.startswith("//@ harness:"):
                md += "* `%s`\n" % l.split("harness:", 1)[1].strip().split()[0]
        for k, n in (("bound", "Bound"), ("assume", "Assumes")):
            for l in tags:
                if l.startswith("//@ %s:" % k):
                    md += "* %s: %s\n" % (n, l.split(":", 1)[1].strip())
        md += "* Beyond the tests: %s\n" % p["why"]
        if p["note"]: md += "* %s\n" % p["note"]
    else:
        md += "Not applicable: %s\n" % [x["reason"] for x in m["not_applicable"] if x["property"] == p["id"]][0]
if os.path.exists(V + "/spec/design_tail.md"):
    md += open(V + "/spec/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(md)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
