#!/usr/bin/env python3
"""vp.py check <property> [--tier quick|thorough]   decide one property
   vp.py job <name> [...]                            run single jobs (development)"""
import concurrent.futures as cf, json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
from registry import JOBS, PROPS, TRUSTED

V = runner.VERIF


def known_findings():
    p = V + "/known-findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def listed(pid, o, kf):
    return [x for x in kf["findings"] if x["property"] == pid and x["job"] == o["job"] and
            o.get("failed") and all(any(s in (y["name"] + " " + y["desc"]) for s in x["obligations"]) for y in o["failed"])]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[0] == "job":
        names = a[1:]
        jobs = [j for j in JOBS if j["name"] in names or any(n.endswith("*") and j["name"].startswith(n[:-1]) for n in names)]
        pid = None
    else:
        pid = a[1]
        jobs = [j for j in JOBS if pid in j["props"] and (tier == "thorough" or not j.get("thorough_only"))]
    if not jobs:
        print("no job for", a); return 2
    for j in jobs:
        j["covered"] = any(x.get("t2") and set(x["fns"]) & set(j["fns"]) and set(x["props"]) & set(j["props"]) for x in JOBS)
    t0 = time.time()
    jobs = sorted(jobs, key=lambda j: -j.get("weight", 1))
    kf = known_findings()
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "7"))) as ex:
        def one(j):
            if runner.STOP.is_set():
                return None
            r = runner.run_job(j, tier)
            if r["status"] == "violated" and pid and not listed(pid, r, kf):
                runner.stop_all()
            elif runner.STOP.is_set():
                return None
            return r
        outs = list(ex.map(one, jobs))
    if runner.STOP.is_set():
        print("a failing input was replayed: the remaining jobs were stopped")
        jobs, outs = zip(*[(j, o) for j, o in zip(jobs, outs) if o])
    wall = time.time() - t0
    viol = 0; err = 0
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    for j, o in zip(jobs, outs):
        print("%-34s %-16s ob=%d/%d reach=%d %.1fs %s" % (o["job"], o["status"], o["discharged"], o["obligations"], o["reach"], o["secs"],
                                                     o["detail"][:3000 if pid is None else 700] if o["status"] not in ("proved",) else ""))
        if o["status"].startswith("violated"):
            f = "%s/evidence/replay/%s_%s.txt" % (V, pid or "job", o["job"])
            with open(f, "w") as fh:
                fh.write("property %s job %s\nfunctions under contract: %s\n%s\n\nfailed obligations:\n" % (pid, o["job"], o["functions"], o["what"]))
                for x in o.get("failed", []):
                    fh.write("  %s | %s | %s:%s\n" % (x["name"], x["desc"], x["file"], x["line"]))
                fh.write("\n%s\n\ndrawn input values of the counterexample, in order (input of the replay): %s\n\ncommands:\n%s\n" % (
                    o["detail"], o.get("values", []), "\n".join(o["cmds"])))
            k = listed(pid, o, kf)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"]))
                continue
            viol += 1
            print("VIOLATION property=%s replay=%s%s" % (pid, f, "" if o["status"] == "violated" else " no-failing-input-found"))
        elif o["status"] == "error":
            err += 1
    if pid:
        for x in kf["findings"]:
            if x["property"] == pid and x.get("always"):
                print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
        P = PROPS[pid]
        proved = [o for o in outs if o["status"] == "proved"]
        bounded_d = [o for j, o in zip(jobs, outs) if j.get("bounded")]
        pr = [o for j, o in zip(jobs, outs) if not j.get("bounded")]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
              "coverage": {
                  "obligations": sum(o["obligations"] for o in pr),
                  "discharged": sum(o["discharged"] for o in pr if o["status"] == "proved"),
                  "checker_cmd": "python3 vp.py check %s  (goto-cc | goto-instrument contracts | cbmc; exact command lines per job below)" % pid,
                  "trusted_base": TRUSTED + P.get("trusted", []),
                  "functions_under_contract": sorted({f for j, o in zip(jobs, outs) for f in o["functions"] if not j.get("bounded")}),
                  "bounded_standins": [{"job": j["name"], "bound": j.get("bounded"), "checks": o["obligations"], "passed": o["discharged"],
                                        "functions": o["functions"]} for j, o in zip(jobs, outs) if j.get("bounded")],
                  "jobs": [{"job": o["job"], "what": o["what"], "functions": o["functions"], "status": o["status"], "mode": o["mode"],
                            "backend": o["backend"], "obligations": o["obligations"], "discharged": o["discharged"],
                            "reachability_guards_falsified": o["reach"], "solver_wall_s": round(o["secs"], 2), "note": o["detail"][:400],
                            "commands": o["cmds"][-3:]} for o in outs]},
              "assumptions": P.get("assumptions", []) + ["no body in the verified unit, any result without side effect: %s" % n for n in sorted({n for o in outs for n in o.get("nobody", [])})],
              "wall_s": round(wall, 2), "violations": viol}
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    print("%s: %d jobs, %d violations, %d undecided, %.1fs" % (pid, len(jobs), viol, err, wall))
    return 1 if viol else (2 if err else 0)


sys.exit(main())
