#!/usr/bin/env python3
"""Make small changes to the code, one at a time, and list those no check notices.

usage: mutate.py [--step N] [--from K] [--workers W] [--of N] FILE...     (files relative to /repo)

A slice (shard 0 of N) of the quick tier of every check is run on each changed
copy; what remains is printed for inspection: a change that means nothing, one
that is left unspecified, or a gap in the checks.  Scratch: /tmp/mutate-scratch.
"""
import argparse, concurrent.futures, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check

HERE = os.path.dirname(os.path.abspath(__file__))
FIRST = {
    "algorithms/evaluation.go": "C29", "algorithms/linear_regression.go": "C24 C25 C34 C23 C36 C32",
    "dataframe/builder.go": "C28 C36 C07", "dataframe/checks.go": "C31 C36 C08", "dataframe/column_access.go": "C09 C04 C27",
    "dataframe/column_header.go": "C31 C07 C28", "dataframe/concat.go": "C08 C36", "dataframe/conversions.go": "C09 C17 C37",
    "dataframe/csv_parsing.go": "C10 C12 C13 C36 C33", "dataframe/csv_writing.go": "C11 C12 C13 C36", "dataframe/dataframe.go": "C26 C33 C07 C32",
    "dataframe/dense_gonum_batching.go": "C09 C36", "dataframe/float_batching.go": "C09", "dataframe/inplace.go": "C06 C07 C04 C36",
    "dataframe/print.go": "C27 C32", "dataframe/raw_data.go": "C28 C07 C05 C08 C17", "dataframe/row_iterators.go": "C09 C24",
    "dataframe/view.go": "C01 C02 C03 C34 C05 C26 C36 C06", "preprocessing/auto_preprocessor.go": "C22 C23 C32",
    "preprocessing/float_imputer.go": "C19 C21", "preprocessing/hash_encoder.go": "C18 C21 C22", "preprocessing/one_hot.go": "C20 C21 C23 C36",
    "preprocessing/scaler.go": "C19 C21 C36", "utils/asserts.go": "C30 C36 C18", "utils/group_indexer.go": "C30", "utils/string_q.go": "C30 C33 C14",
    "utils/utils.go": "C30 C18 C12",
}
LATE = ["C17", "C35", "C37", "C38", "C39", "C06", "C07", "C08"]


def order(f):
    first = FIRST.get(f, "").split()
    ids = ["C%02d" % i for i in range(1, 40) if i not in (15, 16)]
    rest = [p for p in ids if p not in first]
    return first + [p for p in rest if p not in LATE] + [p for p in LATE if p in rest]


def one(job):
    f, k, what, of, tool = job
    scratch = "/tmp/mutate-scratch/%s-%d" % (f.replace("/", "_"), k)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env = check.go_env(scratch)
    try:
        src = os.path.join(scratch, "src")
        check.copy_repo(src)
        new = subprocess.run([tool, os.path.join(check.REPO, f), str(k)], stdout=subprocess.PIPE).stdout
        open(os.path.join(src, f), "wb").write(new)
        p = subprocess.run(["/tmp/mutate-scratch/instr", "-dir", src], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return job, "invalid", 0
        check.place(src)
        main = os.path.join(src, "zzverif/mc/main.go")
        s = open(main).read().replace("maxViol: 8", "maxViol: 1").replace("start.Add(30 * time.Second)", "start")
        open(main, "w").write(s)
        p = subprocess.run(["go", "build", "-o", scratch + "/mc", "./zzverif/mc"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return job, "invalid", 0
        t = time.time()
        for prop, of in [(p, of) for p in order(f)[:14]] + [(p, 3) for p in FIRST.get(f, "").split()]:
            out = scratch + "/out.json"
            if os.path.exists(out):
                os.remove(out)
            cmd = [scratch + "/mc", "-prop", prop, "-tier", "quick", "-seed", "1", "-shard", "0", "-of", str(of), "-out", out, "-secs", "45", "-hang", "20"]
            try:
                p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
            except subprocess.TimeoutExpired:
                return job, "killed by %s (time)" % prop, time.time() - t
            if p.returncode:
                return job, "killed by %s (died)" % prop, time.time() - t
            if json.load(open(out)).get("Violations"):
                return job, "killed by " + prop, time.time() - t
        return job, "SURVIVED", time.time() - t
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--from", dest="start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--of", type=int, default=32)
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    os.makedirs("/tmp/mutate-scratch", exist_ok=True)
    env = check.go_env("/tmp/mutate-scratch")
    tool = "/tmp/mutate-scratch/mutate"
    subprocess.check_call(["go", "build", "-o", tool, "."], cwd=os.path.join(HERE, "mutate"), env=env)
    subprocess.check_call(["go", "build", "-o", "/tmp/mutate-scratch/instr", "."], cwd=os.path.join(check.HERE, "engine", "instr"), env=env)
    jobs = []
    for f in a.files:
        l = subprocess.run([tool, os.path.join(check.REPO, f)], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        for x in l[a.start::a.step]:
            k, what = x.split("\t", 1)
            jobs.append((f, int(k), what, a.of, tool))
    count = {}
    with concurrent.futures.ThreadPoolExecutor(a.workers) as pool:
        for job, r, t in pool.map(one, jobs):
            w = r.split()[0]
            count[w] = count.get(w, 0) + 1
            print("%-9s %5.0fs %s #%d %s%s" % (w, t, job[0], job[1], job[2], "" if w != "killed" else "   [" + r + "]"), flush=True)
    print(count)


main()
