#!/usr/bin/env python3
"""matrix.py [ID...]: applies each planted bug to /repo, runs the check of its property
(ALL=1: every check), undoes it. For use by hand only; no check reads seeded/."""
import json, os, subprocess, sys, time
R = "/verif/seeded"
m = json.load(open("/verif/MANIFEST.json"))
props = [c["property"] for c in m["checks"]]
for pid in sys.argv[1:] or sorted(os.listdir(R)):
    meta = json.load(open(f"{R}/{pid}/meta.json"))
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout
    subprocess.run(f"git -C /repo apply {R}/{pid}/patch.diff", shell=True, check=True)
    try:
        for p in (props if os.environ.get("ALL") else [meta["property"]]):
            t = time.time()
            r = subprocess.run(f"cd /verif && ./run.sh {p} quick", shell=True, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            got = json.load(open("/verif/tools/matrix.json")) if os.path.exists("/verif/tools/matrix.json") else {}
            l = set(got.get(pid, [])) - {p}
            got[pid] = sorted(l | ({p} if r.returncode == 1 and v else set()))
            json.dump(got, open("/verif/tools/matrix.json", "w"), indent=0, sort_keys=True)
            if r.returncode or not os.environ.get("ALL"):
                print(pid, p, "CAUGHT" if r.returncode == 1 and v else f"missed({r.returncode})", "%.0fs" % (time.time() - t), flush=True)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
