#!/usr/bin/env python3
"""catch.py [ID...] [--also C15,C17]: applies each planted bug to /repo, runs the quick check of its property (and
others asked for), undoes it, and prints what was caught."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
also = [a.split("=")[1].split(",") for a in sys.argv if a.startswith("--also=")]
ids = args or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    props = [prop] + (also[0] if also else [])
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode:
        print(i, "DOES NOT APPLY")
        continue
    try:
        for p in props:
            t = time.time()
            r = subprocess.run(["python3", V + "/check.py", p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            what = next((l.strip() for l in (r.stdout + r.stderr).splitlines() if l.strip() and not l.startswith("VIOLATION")), "")
            print(f"{i:22s} {p} {'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s", what[:140] if not v else (r.stdout + r.stderr)[-300:].replace("\n", " | "), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
