#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the list of edits in seeds.py.

usage: mkseeds.py [ID...]      writes and validates the seeds
Every seed is validated in a scratch copy of /repo: it must build, pass the
stable tests, and its demonstration must fail with and pass without the change.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS, HELPERS

SCRATCH = "/tmp/seed-scratch"
ENV = dict(os.environ)
for line in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout.splitlines():
    k, _, v = line.partition("=")
    ENV[k] = v

DEMO = """#!/bin/bash
# Demonstrates the change: run with the repository as working directory.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cat > "$T/overlay.json" <<E
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$D/demo_test.go"}}
E
export DEMO_DIR="$T"
timeout 280 go test -vet=off -count=1 %(race)s-overlay "$T/overlay.json" -run '^TestDemo$' ./%(pkg)s
"""

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def tests(repo):
    p = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=repo, env=ENV, capture_output=True, text=True)
    ok, bad = set(), set()
    for line in p.stdout.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if "Test" in e and e["Action"] == "pass": ok.add((e["Package"], e["Test"]))
        if "Test" in e and e["Action"] == "fail": bad.add((e["Package"], e["Test"]))
    return ok, bad, p

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)

def not_original():
    """whether the change leaves the lines of the original repository alone"""
    out = run(["git", "-C", SCRATCH, "diff", "-U0"]).stdout
    root = run(["git", "-C", SCRATCH, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    f, removed, mine = None, 0, []
    for line in out.splitlines():
        if line.startswith("--- a/"): f = line[6:]
        if line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            if n == 0: continue
            b = run(["git", "-C", SCRATCH, "blame", "-l", "-s", "-L", "%s,+%d" % (a[0], n), "HEAD", "--", f]).stdout
            for l in b.splitlines():
                removed += 1
                if l.split()[0].lstrip("^")[:39] != root[:39]: mine.append(l)
    if not removed: print("note: pure insertion")
    if removed and len(mine) == removed: return "changes only lines of fix commits: %s" % mine
    return None

def main():
    want = sys.argv[1:]
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", SCRATCH])
    base, _, _ = tests(SCRATCH)
    print("baseline", len(base))
    fails = 0
    for s in SEEDS:
        if want and not any(s["id"].startswith(x) for x in want): continue
        d = "/verif/seeded/" + s["id"]
        subprocess.check_call(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
        err = None
        for f, old, new in s["edits"]:
            p = os.path.join(SCRATCH, f)
            t = open(p).read()
            if t.count(old) != 1:
                err = "edit of %s matches %d times: %r" % (f, t.count(old), old); break
            open(p, "w").write(t.replace(old, new))
        if err:
            print(s["id"], "FAIL", err); fails += 1; continue
        err = not_original()
        if err: print(s["id"], "FAIL", err); fails += 1; continue
        os.makedirs(d, exist_ok=True)
        diff = run(["git", "-C", SCRATCH, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "race": "-race " if s.get("race") else ""})
        os.chmod(d + "/demo.sh", 0o755)
        body = s["demo"]
        name = s["pkg"].split("/")[-1]
        imports = ["testing"] + s.get("imports", [])
        src = "package %s_test\n\nimport (\n" % name
        src += "".join('\t"%s"\n' % i for i in imports)
        src += '\tdf "github.com/rom1mouret/ml-essentials/dataframe"\n'
        if "preproc." in body: src += '\tpreproc "github.com/rom1mouret/ml-essentials/preprocessing"\n'
        if "algo." in body: src += '\talgo "github.com/rom1mouret/ml-essentials/algorithms"\n'
        if "utils." in body: src += '\t"github.com/rom1mouret/ml-essentials/utils"\n'
        src += ")\n" + HELPERS + "\nfunc TestDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n"
        open(d + "/demo_test.go", "w").write(src)
        run(["gofmt", "-w", d + "/demo_test.go"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # validation
        b = run(["go", "build", "./..."], cwd=SCRATCH)
        if b.returncode: print(s["id"], "FAIL build", b.stderr[-500:]); fails += 1; continue
        ok, bad, _ = tests(SCRATCH)
        if base - ok: print(s["id"], "FAIL tests", base - ok); fails += 1; continue
        w = run(["bash", d + "/demo.sh"], cwd=SCRATCH)
        subprocess.check_call(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])
        wo = run(["bash", d + "/demo.sh"], cwd=SCRATCH)
        if wo.returncode or not w.returncode:
            print(s["id"], "FAIL demo with=%d without=%d" % (w.returncode, wo.returncode), (wo.stdout + wo.stderr)[-800:] if wo.returncode else w.stdout[-300:]); fails += 1; continue
        print(s["id"], "ok", [l for l in w.stdout.splitlines() if "demo_test.go" in l or "panic" in l or "RACE" in l][:1])
    shutil.rmtree(SCRATCH)
    return fails

sys.exit(1 if main() else 0)
