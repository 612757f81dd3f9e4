#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/library/include/"

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                state=state, observe=observe, technique=technique, note=note, na=na)

exec(open(os.path.join(V, "tool", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "python3 -m mm.extract --tool", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["technique"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.py " + p["id"],
                            "thorough_cmd": "./check.py %s --thorough" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
