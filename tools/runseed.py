#!/usr/bin/env python3
"""Development: apply planted bugs to /repo one at a time, run the check of their property, undo.
   runseed.py [--prop Cxx] [ID ...]"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if args[:1] == ["--prop"]: prop, args = args[1], args[2:]
ids = args or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    d = "%s/seeded/%s" % (HERE, i)
    m = json.load(open(d + "/meta.json"))
    p = prop or m["property"]
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout, "dirty /repo"
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["python3", "check.py", p, "--tier", "quick"], cwd=HERE, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    hit = r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout
    print("%-22s %s %s rc=%d %.0fs  %s" % (i, p, "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t, (r.stdout.strip().splitlines() or [""])[0][:200]), flush=True)
    if r.returncode not in (0, 1): print(r.stderr[-1500:])
