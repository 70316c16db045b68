#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/gwmodelpp/"; H = "include/gwmodelpp/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe), na=na))
exec(open(os.path.join(V, "tools", "props_data.py")).read())
TRUST = " Assumes exact real arithmetic (differences below 1e-6 are not violations), trusts the instrumentation pass, the polynomial normal form and z3/cvc5; each path's model is cross-checked against the native build."
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    if p["na"] or not os.path.exists(f"{V}/harness/{p['id']}.cpp"):
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the compiler's IR of the real code with SMT (z3, cvc5) deciding every branch and assertion within stated bounds; counterexamples replayed natively",
        "level": "model_checking", "level_note": p["note"] + TRUST})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed: the harnesses use the public API and the code is instrumented when it is compiled. Fixes of genuine defects are listed in known_findings.json."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
# DESIGN.md = template + tables
t = "\n".join(f"### {p['id']} {p['title']}\n{p['statement']}\n- Code: {', '.join(n + ' (' + w + ')' for n, w in p['mech'])}. Quantifier: {p['text']}. Why tests do not settle it: {p['why']}\n" + (f"- Not applicable: {p['na']}" if p['na'] else f"- Decided by symbolic execution of that code and SMT; bounds: {p['note']}") for p in P)
kf = json.load(open(V + "/known_findings.json"))["findings"]
f = "\n".join("- " + (k["entry"] if k["status"] == "fixed" else f"known: property={k['property']} {k['what']}") for k in kf) or "none"
b = json.load(open(V + "/tools/bugs.json")); rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {b.get(d, 'not run yet')} |")
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design_template.md").read().replace("@@TABLE@@", t).replace("@@FINDINGS@@", f).replace("@@BUGS@@", "| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows)))
