#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 gen/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []

def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note="", na=None, technique=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    ALL.append(dict(prop={"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a},
        note=note, na=na, technique=technique))

exec(open(os.path.join(HERE, "gen", "list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in ALL:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"]) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
  "notes": "Every check symbolically executes /repo's current Go source (go/ssa built from the working tree) and discharges its assertions with z3/cvc5; see DESIGN.md. /repo carries fix: commits only, no hooks."}
for p in ALL:
    i = p["prop"]["id"]
    if p["na"]:
        man["not_applicable"].append({"property": i, "reason": p["na"]})
        continue
    man["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "technique": p["technique"] or "bounded symbolic execution of the real code (go/ssa) with SMT (z3/cvc5), counterexamples replayed natively",
        "level": "model_checking", "level_note": p["note"]})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
