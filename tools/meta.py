#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and checks.json: run after editing."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, targets=None, technique=None, note=None, hook=None,
         na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, targets=targets, technique=technique, note=note, hook=hook, na=na, state=state))


exec(open(V + "/tools/properties.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": a}) + "\n")

built = [p for p in P if p["targets"] and all(os.path.exists(f"{V}/harness/{t[0] if isinstance(t, tuple) else t}.cpp") for t in p["targets"])]
checks = {}
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in built:
    stages = []
    for t in p["targets"]:
        t = t if isinstance(t, tuple) else (t, "asan", {})
        stages.append(dict(target=t[0], variant=t[1], **t[2]))
    checks[p["id"]] = {"stages": stages}
    man["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick",
                          "thorough_cmd": f"./check {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                          "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
for p in P:
    if p not in built:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "the check is not built yet"})
man["notes"] = "See DESIGN.md. `./check ID --replay FILE` replays a failing case."
json.dump(checks, open(V + "/tools/checks.json", "w"), indent=1)
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(built), "checks")
