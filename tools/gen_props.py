#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit ids, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids)), "duplicate id"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open("/verif/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
