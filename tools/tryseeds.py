#!/usr/bin/env python3
"""Runs the check of each planted bug against a scratch copy of /repo with it.

usage: tryseeds.py [--tier TIER] [ID...]
"""
import json, os, shutil, subprocess, sys, time
args = sys.argv[1:]
tier = "quick"
if args[:1] == ["--tier"]:
    tier, args = args[1], args[2:]
S = "/tmp/seed-try"
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", S])
missed = []
for i in sorted(os.listdir("/verif/seeded")):
    if args and not any(i.startswith(a) for a in args): continue
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", S, "apply", d + "/patch.diff"])
    t = time.time()
    p = subprocess.run(["./check.sh", prop, "--tier", tier], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=S))
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    ok = p.returncode == 1 and v
    if not ok: missed.append(i)
    print("%-34s %-3s rc=%d %5.1fs %s" % (i, "ok" if ok else "MISSED", p.returncode, time.time() - t, (v or p.stdout.splitlines()[-2:] + p.stderr.splitlines()[-3:] or [""])[0][:150]), flush=True)
shutil.rmtree(S)
print("missed:", missed)
