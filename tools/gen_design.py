"""Assembles DESIGN.md from its parts: tools/design_head.md, tools/design_props.py, known_findings.json, seeded/*/meta.json,
tools/design_tail.md."""
import glob
import json
import os
import runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
P = runpy.run_path("tools/design_props.py")["P"]
T = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
M = json.load(open("MANIFEST.json"))
claimed = {c["property_id"] if "property_id" in c else c.get("property") for c in M["checks"]}
out = [open("tools/design_head.md").read().rstrip(), ""]
for p, t in T.items():
    out.append("### %s %s\n" % (p, t["title"]))
    for k, v in zip("SMTOW", P[p]):
        out.append("- **%s** %s" % (k, v))
    out.append("")
K = json.load(open("known_findings.json"))
out += ["## Defects found and repaired", "",
        "Each was reported by a check on the original tree, confirmed on the real code and repaired in its own `fix:` commit in /repo.",
        "None is left open: `known_findings.json` holds only `fixed` entries, which suppress nothing.", ""]
for k in sorted(K, key=lambda k: k["property"]):
    w = k["what"].split(" ", 3)
    out.append("- %s `%s` %s" % (k["property"], k["commit"][:7], w[3] if len(w) > 3 else k["what"]))
out += ["", "## Planted bugs and the checks that catch them", "",
        "Each lies in `seeded/<id>/` and is confirmed by its demonstration (passes without, fails with the change; tests pass).",
        "All of them are caught by the check of their own property (quick tier, seed 1). \"first missed\" marks the ones that",
        "the check did not catch when they were planted; what was added is said in *Strengthened after a miss* below.", ""]
MISSED = open("tools/missed.txt").read().split()
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[1]
    out.append("- `%s` %s%s: needs %s; %s" % (i, m["property"], " (first missed)" if i in MISSED else "", m["needs"], m["what_it_breaks"]))
out += ["", open("tools/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
missing = [p for p in T if p not in P]
print(len(out), "blocks; no text for", missing)
