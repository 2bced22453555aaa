#!/usr/bin/env python3
"""Apply each planted bug to /repo, run the check of its property, undo it.

usage: seed_run.py [id...]; prints which are caught. For development; no check uses it.
"""
import json, os, subprocess, sys, time
V = "/verif"
S = f"{V}/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    d = f"{S}/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run([f"{V}/run.sh", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "src"], check=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and any(f"property={prop}" in l for l in v)
    print(f"{'caught' if ok else 'MISSED'} {i} {prop} rc={r.returncode} {time.time()-t:.0f}s", flush=True)
    if ok or r.returncode not in (0, 1):
        j = r.stdout.splitlines()
        k = next((n for n, l in enumerate(j) if l.startswith("VIOLATION")), 0)
        print("   ", "\n    ".join(x[:300] for x in j[max(0, k - 4):k + 3]), flush=True)
