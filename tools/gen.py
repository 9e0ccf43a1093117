#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
import checks, props
with open(H + "/properties.jsonl", "w") as f:
    for i, p in props.P.items():
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        d = dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's unmodified sources; file and heap functions are renamed on the compiler's command line", source_commits=[]),
         checks=[], not_applicable=[],
         notes="Every check compiles /repo's current sources to LLVM IR and executes them symbolically with engine/vsx.cpp (Z3). See DESIGN.md.")
for i, p in props.P.items():
    if i in checks.CHECKS and not p["na"]:
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled code (LLVM IR) with Z3", level="model_checking",
            level_note="Bounded: " + p["level_note"] + ". Trusted: the engine, Z3, the models of libc, libxml2's callbacks and open62541 in env/ (completed paths are re-run natively and compared)."))
    else:
        m["not_applicable"].append(dict(property=i, reason=p["na"] or "no check yet"))
missing = set(checks.CHECKS) - set(props.P)
assert not missing, missing
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
t = open(H + "/tools/DESIGN.tmpl.md").read()
body = ""
for i, p in props.P.items():
    body += "- **%s %s** — %s\n" % (i, p["title"], p.get("design") or "")
    if i in checks.CHECKS and not p["na"]:
        for r in checks.CHECKS[i]["runs"]:
            body += "  - `%s` (%s, %s): %s\n" % (r["name"], r["harness"], r.get("tier", "quick"), r.get("scope", ""))
    else: body += "  - not applicable: %s\n" % (p["na"] or "no check yet")
rows = ""
sd = H + "/seeded"
res = json.load(open(H + "/tools/seeded_results.json")) if os.path.exists(H + "/tools/seeded_results.json") else {}
for d in sorted(os.listdir(sd)):
    f = os.path.join(sd, d, "meta.json")
    if os.path.exists(f):
        m_ = json.load(open(f))
        rows += "| %s | %s | %s | %s |\n" % (d, m_["property"], m_["what_it_breaks"].replace("|", "/"), res.get(d, "?"))
if rows: rows = "\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + rows
open(H + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", body).replace("@@SEEDED@@", rows))
