#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, level_note, technique=None, state=None, na=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, technique=technique, state=state, na=na, level=level))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        anchors = {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"]}
        if x["state"]:
            anchors["state"] = x["state"]
        d = {"id": x["id"], "title": x["title"], "statement": x["statement"],
             "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"], "anchors": anchors}
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(d) + "\n")
have = {x["id"] for x in P if os.path.exists(os.path.join(V, "harness", x["id"].lower() + ".py")) and not x["na"]}
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": x["id"], "quick_cmd": f"./run.sh {x['id']} quick", "thorough_cmd": f"./run.sh {x['id']} thorough",
                   "evidence_file": f"evidence/{x['id']}.json",
                   "technique": x["technique"] or "TLA+ spec checked with TLC; TLC behaviours replayed into the real code",
                   "level": x["level"], "level_note": x["level_note"]} for x in P if x["id"] in have],
       "not_applicable": [{"property": x["id"], "reason": x["na"] or "check not built yet"} for x in P if x["id"] not in have],
       "notes": "Specs in spec/ (TLA+), harness in harness/, see DESIGN.md. No hooks in /repo; only fix: commits."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties;", len(have), "claimed")
