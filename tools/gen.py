#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in registry.PROPS.items():
        f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks = []
for pid, p in registry.PROPS.items():
    if not p.get("stages"):
        continue
    checks.append(dict(property=pid, quick_cmd="python3 tools/check.py " + pid,
                       thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=p["technique"],
                       level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=pid, reason=p["na"]) for pid, p in registry.PROPS.items() if not p.get("stages")],
         notes="Every check is generated-input search with an explicit oracle; see DESIGN.md. No hooks in /repo.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
import textwrap
out = [open(HERE + "/design_head.md").read()]
out.append("## The properties\n")
for pid, p in registry.PROPS.items():
    w = lambda k, t: textwrap.fill("**%s.** %s" % (k, t), 96)
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append(w("Specified", p["statement"]) + "\n")
    if p.get("stages"):
        out.append(w("Decided by", p["technique"] + ". Quantified over " + p["quant"] + ".") + "\n")
        out.append(w("Cases", p["rule"]) + "\n")
        out.append(w("Bounds and trust", p["note"]) + "\n")
        out.append(w("Beyond the tests", p["why"]) + "\n")
        out.append(w("Harness", ", ".join("harness/%s.cpp" % s["name"] for s in p["stages"]) + "; anchored in " + ", ".join(p["files"])) + "\n")
    else:
        out.append(w("Not applicable", p["na"]) + "\n")
out.append("## Planted bugs\n")
out.append("Kept under seeded/ (no check reads it). Result of the quick check of the property, seed 1.\n")
out.append("| bug | property | what it needs | caught |\n|---|---|---|---|")
sd = V + "/seeded"
res = json.load(open(HERE + "/seeded_results.json")) if os.path.exists(HERE + "/seeded_results.json") else {}
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    try:
        m = json.load(open("%s/%s/meta.json" % (sd, b)))
    except OSError:
        continue
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/").replace("\n", " "), res.get(b, "?")))
if os.path.isdir(sd):
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
