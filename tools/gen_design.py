#!/usr/bin/env python3
"""Writes DESIGN.md from doc/design_head.md, the table of checks and doc/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import checks as K
ORACLE = {k: v for k, _, v in (l.strip().partition(": ") for l in open(V + "/doc/oracles.txt") if ": " in l)}
out = [open(V + "/doc/design_head.md").read().rstrip(), "", "## Per property", "",
       "Quick cost is the wall time of the quick check on 8 cores, rounded, as measured here.", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); pid = p["id"]; c = K.CHECKS.get(pid)
    if not c:
        out += ["### %s %s" % (pid, p["title"]), "", "Not claimed: %s" % K.NOT_APPLICABLE.get(pid, "see MANIFEST.json"), ""]; continue
    hs = sorted({r["h"] for r in c["runs"]})
    eng = "sched" if "schedul" in c["technique"] else "seq"
    out += ["### %s %s" % (pid, p["title"]), "",
            "* **Engine and harness**: %s, %s" % (eng, ", ".join("`harness/%s.c`" % h for h in hs)),
            "* **Enumerated, bounds**: %s" % c["bounds"]]
    whats = [r["what"] for r in c["runs"] if r.get("what")]
    if whats: out.append("* **Parts**: %s" % "; ".join(whats))
    out.append("* **Oracle, cost, reach**: %s" % ORACLE.get(pid, c["note"]))
    nf = sum(1 for x in open(V + "/known_findings.txt") if x.startswith("fixed: property=%s " % pid)); nk = sum(1 for x in open(V + "/known_findings.txt") if x.startswith("finding: property=%s " % pid))
    out += ["* **Found in mstdlib**: %d repaired, %d recorded as known findings" % (nf, nk), ""]
tab = ["| id | property (check that catches it) | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = V + "/seeded/" + d + "/meta.json"
    if os.path.exists(m): j = json.load(open(m)); tab.append("| %s | %s | %s |" % (d, j["property"], j["needs"]))
out += [open(V + "/doc/design_tail.md").read().rstrip().replace("SEEDTABLE", "\n".join(tab)), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
