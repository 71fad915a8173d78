#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from plist import PROPS, HOOKS

TECH = {
 "seq": "bounded explicit-state model checking of the real code (every operation sequence, states merged by observation)",
 "conc": "stateless model checking (loom, all interleavings up to a preemption bound)",
 "fault": "exhaustive enumeration of crash points and injected faults over model-checked histories of the real code",
 "sched": "stateless model checking: every placement of background work between operations",
}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH[p.get("tech", "seq")],
        "level": p.get("level", "model_checking"),
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
