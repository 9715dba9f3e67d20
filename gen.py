#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py / registry.py"""
import json, os, subprocess, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib")]
from props import PROPS, NOT_APPLICABLE
from registry import JOBS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS.values():
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
T = "contract-based deductive verification of the real C code (CBMC function/loop contracts, SAT back end)"
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
checks = []
for p in PROPS.values():
    pid = p["id"]
    if pid in NOT_APPLICABLE:
        continue
    js = [j for j in JOBS if pid in j["props"]]
    assert js, pid
    checks.append({"property": pid, "quick_cmd": "python3 vp.py check %s --tier quick" % pid, "thorough_cmd": "python3 vp.py check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"] or T, "level": p["level"],
                   "level_note": p["note"] + ("; trusted/assumed: " + "; ".join(p["trusted"] + p["assumptions"]) if p["trusted"] or p["assumptions"] else ""),
                   "theorems": [j["name"] for j in js if not j.get("bounded")]})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "C4_VERIFY", "enable": "goto-cc -DC4_VERIFY (contract mode of every unit)",
     "source_commits": [l.split()[0] for l in hooks if " hook:" in l]},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "see DESIGN.md; known-findings.json lists recorded and fixed defects"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
bad = [j["name"] for j in JOBS for q in j["props"] if q not in PROPS]
assert not bad, bad
print(len(PROPS), "properties", len(checks), "claimed", len(JOBS), "jobs")
