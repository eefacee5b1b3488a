#!/usr/bin/env python3
"""runseeds.py [ids...]: applies each planted bug to /repo in turn, runs its property's quick check, undoes it."""
import os, sys, json, subprocess
V = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    d = V + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    a = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if a.returncode: print(i, "DOES NOT APPLY"); continue
    try:
        r = subprocess.run(["python3", V + "/check.py", p, "quick"], capture_output=True, text=True, cwd=V)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    caught = r.returncode == 1 and ("VIOLATION property=" + p) in r.stdout
    print(i, p, "CAUGHT" if caught else "MISSED rc=%d" % r.returncode, (r.stdout.strip().splitlines() or [""])[0][:160], flush=True)
    if r.returncode == 2: print(r.stdout[-1500:])
