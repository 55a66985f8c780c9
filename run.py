#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] : builds and runs every harness of one property, writes evidence/<id>.json."""
import json, os, subprocess, sys, time, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc")); sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
import checks as K

def known(pid):
    """(keys, texts) listed for this property in known_findings.txt; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):].strip()
                key, _, text = rest.partition(" ")
                out.append((key, text))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = K.CHECKS[pid]
    t0 = time.time()
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = "/tmp/mc-%s-%d" % (pid, os.getpid()); os.makedirs(scratch)
    os.chmod(scratch, 0o777)
    env = dict(os.environ, MC_SCRATCH=scratch, LC_ALL="C", TZ="UTC", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.pop("ASAN_OPTIONS", None)
    kn = known(pid)
    total = 300.0 if tier == "quick" else 780.0
    parts, viol, errs, seen_known = [], [], [], []
    runs = [r for r in c["runs"] if tier == "thorough" or not r.get("thorough_only")]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    for i, r in enumerate(runs):
        if only and r["h"] != only: continue
        try: exe = B.build(r["h"])
        except SystemExit as e:
            errs.append("build of %s: %s" % (r["h"], e)); print(e); continue
        left = total - (time.time() - t0)
        share = max(20.0, left / (len(runs) - i))
        js = os.path.join(scratch, "out.json")
        def once(extra=[]):
            if os.path.exists(js): os.unlink(js)
            args = [exe, "--json", js, "--replaydir", rdir, "--prop", pid, "--time", "%.0f" % share] + (["--thorough"] if tier == "thorough" else [])
            for k, v in r.get("p", {}).items():
                if isinstance(v, tuple): v = v[1 if tier == "thorough" else 0]
                args += ["-p", "%s=%s" % (k, v)]
            for k, _ in kn: args += ["--known", k]
            q = subprocess.run(args + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=scratch)
            d = json.load(open(js)) if os.path.exists(js) else None
            return q, d
        q, d = once()
        if q.returncode in (2, 4):
            q2, d2 = once()
            if q2.returncode in (0,) and q2.returncode != q.returncode:
                q, d = q2, d2     # transient (e.g. memory pressure): the complete exploration passed
            else: q, d = q2, d2
        sys.stderr.write(q.stderr[-1500:])
        if d is None or q.returncode not in (0, 1, 2, 4):
            errs.append("%s: exit %d: %s" % (r["h"], q.returncode, q.stderr[-800:])); continue
        d["variant"] = r.get("what", "")
        parts.append(d)
        seen_known += d["known"]
        if q.returncode == 1: viol.append((d["violation"], d["replay"]))
        elif q.returncode == 2: viol.append(("failure that depends on hidden state: " + q.stderr[-300:].replace("\n", " "), os.path.join(rdir, "%s-%s.replay" % (pid, r["h"]))))
        elif q.returncode == 4:
            rp = os.path.join(rdir, "%s-%s-diverge.txt" % (pid, r["h"])); open(rp, "w").write(q.stderr)
            viol.append(("two replays of one execution observe different results: " + q.stderr[:300].replace("\n", " "), rp))
        if viol: break
    shutil.rmtree(scratch, ignore_errors=True)
    S = lambda k: sum(p[k] for p in parts)
    samples = []
    for p in parts:
        for s in p["samples"][:2]: samples.append({"harness": p["harness"], "variant": p["variant"], "trace": s[:1500]})
    for p in parts:
        p.pop("samples"); p.pop("known")
    ex = bool(parts) and not any(p["capped"] or p["state_table_full"] for p in parts) and not errs
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"),
          "coverage": {"states": S("states"), "transitions": S("transitions"), "traces_validated_against_impl": S("executions"), "evaluations": S("executions"),
                       "input_cases": S("cases"), "distinct_nontrivial": S("outcomes") or S("states"),
                       "rule": c.get("rule", "Every answer to every nondeterministic choice of the driver is enumerated; every execution runs the real code. States and outcomes are distinct hashes of the observed state / result."),
                       "exhaustive": ex and not viol, "bounds": c.get("bounds", ""), "runs": parts, "samples": samples or ["none"]},
          "assumptions": sorted({a for p in parts for a in p["assumptions"]} | set(c.get("assumptions", []))),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if errs: ev["errors"] = errs
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k, text in kn:
        if k in seen_known: print("KNOWN-FINDING: property=%s %s %s" % (pid, k, text))
    for m, rp in viol:
        print("violation: " + m)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for e in errs: print("ERROR " + e)
    print("%s %s: %d executions, %d states, %d transitions, exhaustive=%s, %.1fs" % (pid, tier, S("executions"), S("states"), S("transitions"), ev["coverage"]["exhaustive"], time.time() - t0))
    sys.stdout.flush()
    sys.exit(1 if viol else 3 if errs else 0)
main()
