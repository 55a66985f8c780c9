"""Writes MANIFEST.json from tools/checks.py and tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import checks, gen_props
ids = [p["id"] for p in map(json.loads, open(os.path.join(VERIF, "properties.jsonl")))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for i in ids:
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"] + (" Bounds: " + c["bounds"] if c["bounds"] else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "not claimed yet: no check has been built for it so far")})
assert set(checks.CHECKS) <= set(ids), set(checks.CHECKS) - set(ids)
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1); open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
