#!/usr/bin/env python3
"""development tool: applies each /verif/seeded patch to /repo, runs its property's check, undoes it
usage: catch.py [id ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
res = {}
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    if subprocess.call(["git", "-C", "/repo", "apply", d + "/patch.diff"]):
        print(i, "does not apply"); continue
    try:
        t = time.time()
        r = subprocess.run(["python3", "run.py", "--property", prop, "--tier", "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
        print(i, prop, "CAUGHT" if hit else "missed rc=%d" % r.returncode, "%.0fs" % (time.time() - t), "" if hit else r.stdout[-600:], flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
