#!/usr/bin/env python3
"""tryseeds.py [id...]: applies each planted bug to /repo, runs its property's check, undoes it."""
import glob, json, os, re, subprocess, sys, time
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "DOES NOT APPLY"); continue
    try:
        t = time.time()
        r = subprocess.run(["bash", "run.sh", m["property"], "quick"], cwd=V, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        ob = [l for l in r.stdout.splitlines() if l.startswith(("obligation not", "contract of"))]
        print("%-18s %s rc=%d %s obligations=%d %.0fs" % (i, m["property"], r.returncode, ("MISSED" if not v else "proof-only" if v[0].endswith("found") else "caught"), len(ob), time.time() - t), "" if r.returncode in (0,1) else (r.stdout+r.stderr)[-800:], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
