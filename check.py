#!/usr/bin/env python3
"""Builds the code under test (rewritten for the controlled scheduler) together
with the exploration harness, explores one property, writes its evidence.

usage: check.py Cxx [--tier quick|thorough] [--only CASE] [--shards N] [--keep]
       check.py --warm
"""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RACE = {"C15", "C16"}


def go_env(scratch):
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    for d in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.exists(d + "/go"):
            env["PATH"] = d + ":" + env.get("PATH", "/usr/bin:/bin")
            break
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["TMPDIR"] = scratch
    return env


def run(cmd, cwd, env, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace")


def copy_repo(dst):
    os.makedirs(dst)
    p = subprocess.run("tar cf - --exclude=.git --exclude='*_test.go' -C '%s' . | tar xf - -C '%s'" % (REPO, dst),
                       shell=True, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise SystemExit("copying the repository failed: " + p.stderr)


def module_path(src):
    for l in open(os.path.join(src, "go.mod")):
        m = re.match(r"\s*module\s+(\S+)", l)
        if m:
            return m.group(1)
    raise SystemExit("no module path")


def place(src):
    z = os.path.join(src, "zzverif")
    for d in ("sched", "shim", "mc"):
        shutil.copytree(os.path.join(HERE, "engine", d), os.path.join(z, d))


def build(scratch, env, race):
    """returns (path of mc or None, native?, instrumentation counts, message)"""
    instr = os.path.join(scratch, "instr")
    p = run(["go", "build", "-o", instr, "."], os.path.join(HERE, "engine", "instr"), env)
    if p.returncode != 0:
        return None, False, {}, "cannot build the rewriter:\n" + p.stdout
    msgs = []
    for native in (False, True):
        src = os.path.join(scratch, "native" if native else "src")
        copy_repo(src)
        counts = {}
        if not native:
            p = run([instr, "-dir", src], scratch, env)
            if p.returncode != 0:
                msgs.append("rewriting failed:\n" + p.stdout)
                continue
            try:
                counts = json.loads(p.stdout.strip().splitlines()[-1])
            except Exception:
                counts = {}
        place(src)
        out = os.path.join(scratch, "mc")
        cmd = ["go", "build", "-o", out]
        if race and not native:
            # allocations of uninstrumented packages must still reset the state
            # of the memory, hence the experiment that is turned off
            env = dict(env, GOEXPERIMENT="nosizespecializedmalloc")
            cmd += ["-race", "-gcflags=%s/zzverif/sched=-race=false -l" % module_path(src), "-gcflags=fmt=-race=false -l"]
        p = run(cmd + ["./zzverif/mc"], src, env)
        if p.returncode == 0:
            return out, native, counts, "\n".join(msgs)
        msgs.append(("native " if native else "") + "build failed:\n" + p.stdout)
    return None, True, {}, "\n".join(msgs)


def shard_cmd(mc, a, prop, native, secs, i, n, out):
    cmd = [mc, "-prop", prop, "-tier", a.tier, "-seed", str(a.seed), "-shard", str(i), "-of", str(n),
           "-out", out, "-secs", str(secs)]
    if native:
        cmd += ["-native", "-hang", "20"]
    return cmd


def run_shard(cmd, scratch, env, tag, secs):
    e = dict(env)
    racelog = os.path.join(scratch, "race-" + tag)
    e["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=5" % racelog
    out = cmd[cmd.index("-out") + 1]
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=secs + 120, text=True, errors="replace")
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        rc, text = -99, "timeout: " + str(ex.output)[-2000:]
    races = ""
    for f in sorted(os.listdir(scratch)):
        if f.startswith("race-" + tag + "."):
            races += open(os.path.join(scratch, f), errors="replace").read()
            os.remove(os.path.join(scratch, f))
    rep = None
    try:
        rep = json.load(open(out))
    except Exception:
        pass
    return rc, text, rep, races


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--warm", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--only", default="")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--secs", type=float, default=0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    env = go_env(scratch)
    try:
        if a.warm:
            ok = True
            for race in (False, True):
                d = os.path.join(scratch, str(race))
                os.makedirs(d)
                mc, native, counts, msg = build(d, env, race)
                print("race" if race else "plain", "build:", "ok" if mc else "FAILED", "native" if native else "", json.dumps(counts), msg)
                ok = ok and mc is not None
            return 0 if ok else 2
        return check(a, scratch, env, t0)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)


def check(a, scratch, env, t0):
    prop = a.prop
    race = prop in RACE
    mc, native, counts, msg = build(scratch, env, race)
    if mc is None:
        print(msg)
        print("the code under test does not build with the harness")
        return 2
    if native or msg:
        print("note: " + msg)
    tbuild = time.time() - t0
    secs = a.secs or (300 if a.tier == "quick" else 780)
    n = a.shards or (1 if a.only else 8)

    def one(i):
        cmd = shard_cmd(mc, a, prop, native, secs, i, n, os.path.join(scratch, "out%d.json" % i))
        if a.only:
            cmd += ["-only", a.only]
        return cmd, run_shard(cmd, scratch, env, str(i), secs)

    with concurrent.futures.ThreadPoolExecutor(n) as pool:
        results = list(pool.map(one, range(n)))
    reports, viols, broken = [], [], []
    for i, (cmd, (rc, text, rep, races)) in enumerate(results):
        if rep is not None and rc == 0:
            reports.append(rep)
            for v in rep.get("Violations") or []:
                v["Races"] = races
                viols.append(v)
            if a.v:
                print("shard %d: %d traces %d schedules %.1f s" % (i, rep["Traces"], rep["Schedules"], rep["WallS"]))
            continue
        # the process died: find the case by tracing, twice
        traces = []
        for k in range(2):
            tf = os.path.join(scratch, "trace%d" % i)
            if os.path.exists(tf):
                os.remove(tf)
            rc2, text2, rep2, _ = run_shard(cmd + ["-trace", tf], scratch, env, str(i), secs)
            if rc2 == 0 and rep2 is not None:
                reports.append(rep2)
                traces = None
                break
            case = open(tf, errors="replace").read() if os.path.exists(tf) else ""
            traces.append((case, text2))
        if traces is None:
            continue
        if traces[0][0] and traces[0][0] == traces[1][0]:
            viols.append({"Key": traces[0][0], "Case": "", "Msg": "the process died (%d):\n%s" % (rc, traces[1][1][:3000]),
                          "Info": None, "Races": "", "Crash": True})
        else:
            broken.append("shard %d died (%d): %s" % (i, rc, text[-3000:]))

    # values that must not depend on the process
    consts = {}
    for rep in reports:
        for k, x in (rep.get("Consts") or {}).items():
            consts.setdefault(k, set()).add(x)
    for k, xs in consts.items():
        if len(xs) > 1:
            viols.append({"Key": k, "Case": "", "Msg": "%s differs between processes: %s" % (k, sorted(xs)), "Info": None, "Races": ""})

    # each violation has to show again when its case runs alone
    def confirm(v):
        if v.get("Crash") or not v.get("Case") or a.only or "does not end" in v["Msg"]:
            return v, True
        for k in range(3):
            tag = "c%d-%d" % (id(v) % 100000, k)
            cmd = shard_cmd(mc, a, prop, native, secs, 0, 1, os.path.join(scratch, "out%s.json" % tag)) + ["-only", v["Case"]]
            rc, text, rep, races = run_shard(cmd, scratch, env, tag, secs)
            if rc != 0 or rep is None:
                return v, True
            same = [x for x in (rep.get("Violations") or [])]
            if not same:
                return v, False
            if races:
                v["Races"] = races
        return v, True

    known = known_findings(prop)

    def is_known(v):
        for key, what in known:
            if key == v["Key"] or (key.endswith("*") and v["Key"].startswith(key[:-1])):
                return what
        return None

    fresh, hits, unconfirmed = [], {}, []
    for v in viols:
        w = is_known(v)
        if w:
            hits[w] = v
        else:
            fresh.append(v)
    fresh.sort(key=lambda v: (len(v["Key"]), v["Key"]))
    confirmed = []
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        for v, ok in pool.map(confirm, fresh[:8]):
            (confirmed if ok else unconfirmed).append(v)
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if what in hits else " (not reached in this run)"))

    def tot(k):
        return sum(r.get(k) or 0 for r in reports)
    units, incomplete, samples, notes = {}, [], [], []
    for r in reports:
        for k, x in (r.get("Units") or {}).items():
            units[k] = units.get(k, 0) + x
        incomplete += r.get("Incomplete") or []
        notes += [x for x in (r.get("Notes") or []) if x not in notes]
    for i in range(6):
        for r in reports:
            s = r.get("Samples") or []
            if i < len(s) and len(samples) < 12:
                samples.append(s[i])
    cov = {
        "states": tot("States"),
        "transitions": tot("Transitions"),
        "traces_validated_against_impl": tot("Traces"),
        "schedules": tot("Schedules"),
        "pruned_equivalent_schedules": tot("Pruned"),
        "max_choice_depth": max([r.get("MaxDepth") or 0 for r in reports] or [0]),
        "units": units,
        "samples": samples,
        "exhaustive": bool(reports) and all(r.get("Complete") for r in reports) and not broken and not native,
        "incomplete": sorted(set(incomplete))[:50],
        "notes": notes[:30],
        "rewritten_constructs": counts,
        "controlled_scheduler": not native,
        "build_s": round(tbuild, 2),
        "unconfirmed": [v["Key"] for v in unconfirmed],
    }
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["sequentially consistent memory; scheduling points at synchronisation operations",
                          "values outside the enumerated alphabets and sizes beyond the bounds are not covered"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if not a.only:
        evd = os.path.join(HERE, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, prop + ".json.tmp"), "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(os.path.join(evd, prop + ".json.tmp"), os.path.join(evd, prop + ".json"))
    for s in broken:
        print("shard failed: " + s)
    for v in unconfirmed:
        print("not reproduced, ignored: " + v["Key"] + ": " + v["Msg"][:300])
        if a.v:
            print(v.get("Races", "")[:4000])
    if confirmed:
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(confirmed[:8]):
            path = os.path.join(rd, "%s-%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write("property: %s\ncase: %s\n\n%s\n" % (prop, v["Key"], v["Msg"]))
                if v.get("Info"):
                    f.write("\nchoices (others are the default):\n  " + "\n  ".join(v["Info"]) + "\n")
                if v.get("Races"):
                    f.write("\n" + v["Races"][:20000] + "\n")
                f.write("\nreplay: ./check.sh %s --only '%s'\n" % (prop, v.get("Case") or ""))
            print("--- %s\n%s" % (v["Key"], v["Msg"][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        return 1
    if broken and not reports:
        return 2
    print("%s: %d cases, %d states, %d transitions, %d schedules (+%d equivalent pruned), exhaustive=%s, %.1f s (build %.1f s)" %
          (prop, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], cov["schedules"],
           cov["pruned_equivalent_schedules"], cov["exhaustive"], time.time() - t0, tbuild))
    if a.v:
        print(json.dumps(units, indent=1))
    for s in cov["incomplete"]:
        print("incomplete: " + s)
    for s in notes[:30]:
        print("note: " + s)
    return 2 if broken else 0


if __name__ == "__main__":
    sys.exit(main())
