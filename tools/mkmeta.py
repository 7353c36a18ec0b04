#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "app/tenncor/"
R = "app/rocnnet/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


exec(open(os.path.join(HERE, "tools", "properties.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./check.py --build",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']} --tier quick",
                 "thorough_cmd": f"./check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in P if p["id"] not in {n for n, _ in NA}],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA],
     "notes": "TLA+ specifications in spec/, checked and unfolded into behaviours by TLC; harnesses in harness/ replay them "
              "against /repo's current sources (built under AddressSanitizer in build/). See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
