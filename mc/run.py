#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [quick|thorough] | run.py <ID> --replay <file> | run.py --build-all"""
import json, os, re, subprocess, sys, time, shutil, tempfile, threading, signal
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from jobs import JOBS, META

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
REPL = os.path.join(VERIF, "replays")

def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out

def env_for(job):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:detect_odr_violation=0:max_allocation_size_mb=6000"
    e["OMP_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C"
    e["OPENCV_LOG_LEVEL"] = "SILENT"
    e.update(job.get("env", {}))
    return e

def readf(p, n=None):
    try:
        with open(p, "rb") as f:
            d = f.read()
        d = d.rstrip(b"\0") if n is not None else d.split(b"\0")[0]
        d = d.decode(errors="replace")
        return d if n is None else d[-n:]
    except OSError:
        return ""

def run_job(job, exe, part, tier, budget, hard, replay=None):
    tmp = tempfile.mkdtemp(prefix="vjob-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        out = os.path.join(tmp, "out.json")
        scratch = os.path.join(tmp, "scratch")
        os.mkdir(scratch)
        cmd = [exe, "--out", out, "--budget", str(budget), "--scratch", scratch]
        if part:
            cmd += ["--part", part]
        if tier == "thorough":
            cmd += ["--thorough"]
        if replay is not None:
            cmd += ["--replay", replay]
        errp = os.path.join(tmp, "err")
        t0 = time.time()
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env_for(job), cwd=scratch, start_new_session=True)
            timed_out = False
            last, since = None, time.time()
            while True:
                try:
                    rc = p.wait(1.0)
                    break
                except subprocess.TimeoutExpired:
                    c = readf(out + ".case")
                    if c != last:
                        last, since = c, time.time()
                    if time.time() - t0 > hard:
                        timed_out = True
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
        case = readf(out + ".case")
        err = readf(errp, 6000)
        res = {"name": job["name"], "part": part, "rc": rc, "wall": time.time() - t0, "case": case, "stderr": err, "violations": []}
        js = None
        if os.path.exists(out):
            try:
                js = json.load(open(out))
            except ValueError:
                js = None
        if js:
            res.update(js)
        if timed_out:
            stuck = time.time() - since
            if stuck > 45:
                res["violations"] = res.get("violations", []) + [{"key": "hang:%s:%s" % (job["name"], re.sub(r"[^A-Za-z0-9_.-]+", "_", case)[:80]), "msg": "no termination: case '%s' still running after %.0f s" % (case, stuck), "replay": case}]
            else:
                res["exhaustive"] = False
        elif rc not in (0, 3):
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
            kind = m.group(1) if m else ("signal%d" % -rc if rc < 0 else "exit%d" % rc)
            res["violations"] = res.get("violations", []) + [{"key": "crash:%s:%s:%s" % (job["name"], kind, re.sub(r"[^A-Za-z0-9_.-]+", "_", case.split("|")[0])[:80]), "msg": "process died (%s) while evaluating case '%s'\n%s" % (kind, case, err[-3500:]), "replay": case}]
        elif js is None:
            res["violations"] = [{"key": "crash:%s:no-result" % job["name"], "msg": "no result written; case '%s'\n%s" % (case, err[-2000:]), "replay": case}]
        return res
    finally:
        subprocess.run(["rm", "-rf", tmp])

def build_jobs(jobs):
    exes = {}
    for j in jobs:
        k = (j["name"], j.get("mode", "asan"))
        if k not in exes:
            exes[k] = build.build(j["name"], j["src"], j["modules"], j.get("mode", "asan"), j.get("extra", ()), j.get("ld", ()))
    return exes

def main():
    if sys.argv[1] == "--build-all":
        alljobs = [j for js in JOBS.values() for j in js]
        build_jobs(alljobs)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else "quick"
    t0 = time.time()
    jobs = [j for j in JOBS[prop] if tier == "thorough" or not j.get("thorough_only")]
    try:
        exes = build_jobs(jobs)
    except build.BuildError as e:
        print("BUILD-FAILED property=%s\n%s" % (prop, e))
        return 2
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ok = False
        for j in jobs:
            if j["name"] == rp["harness"] and j.get("mode", "asan") == rp["mode"]:
                r = run_job(j, exes[(j["name"], j.get("mode", "asan"))], rp["part"], rp["tier"], 600, 700, rp["replay"] if j.get("replayable") else None)
                for v in r["violations"]:
                    print("REPLAYED [%s] %s" % (v["key"], v["msg"]))
                    ok = True
        return 1 if ok else 0
    tbuild = time.time() - t0
    units = []
    for j in jobs:
        for p in j.get("parts", [None]):
            b = j.get("budget_t", 1500) if tier == "thorough" else j.get("budget_q", 300)
            units.append((j, p, b))
    results = []
    with ThreadPoolExecutor(build.JOBS) as ex:
        futs = [ex.submit(run_job, j, exes[(j["name"], j.get("mode", "asan"))], p, tier, b, b + (300 if tier == "thorough" else 100)) for j, p, b in units]
        for (j, p, b), f in zip(units, futs):
            r = f.result()
            r["job"] = j
            results.append(r)
    # confirm every reported violation by running it again (schedules: replay the recorded schedule)
    confirmed = []
    for r in results:
        if not r["violations"]:
            continue
        j = r["job"]
        hangs = [v for v in r["violations"] if v["key"].startswith("hang:")]
        others = [v for v in r["violations"] if not v["key"].startswith("hang:")]
        for v in hangs:
            confirmed.append((v, r))
        if not others:
            continue
        exe = exes[(j["name"], j.get("mode", "asan"))]
        if j.get("replayable"):
            for v in others:
                for attempt in range(2):
                    rr = run_job(j, exe, r["part"], tier, 120, 200, v["replay"])
                    if rr["violations"]:
                        confirmed.append((v, r))
                        break
                else:
                    print("note: violation %s was not reproduced by replay; not reported" % v["key"])
        else:
            b = j.get("budget_t", 1500) if tier == "thorough" else j.get("budget_q", 300)
            rr = run_job(j, exe, r["part"], tier, b, b + 100)
            keys = {v["key"] for v in rr["violations"]}
            for v in others:
                if v["key"] in keys or keys:
                    confirmed.append((v, r))
                else:
                    print("note: violation %s was not reproduced on a second run; not reported" % v["key"])
    known = load_known()
    nviol, seen = 0, set()
    os.makedirs(REPL, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    vlist = []
    for v, r in confirmed:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        kf = [k for k in known if k[0] == prop and k[1] == v["key"]]
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][2]))
            continue
        nviol += 1
        path = os.path.join(REPL, "%s-%d.json" % (prop, nviol))
        json.dump({"property": prop, "harness": r["name"], "mode": r["job"].get("mode", "asan"), "part": r["part"], "tier": tier, "key": v["key"], "message": v["msg"], "replay": v["replay"],
                   "how": "python3 /verif/mc/run.py %s %s --replay %s" % (prop, tier, path)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   [%s] %s" % (v["key"], v["msg"][:1500]))
        vlist.append({"key": v["key"], "message": v["msg"][:600], "replay": path})
    meta = META[prop]
    tot = lambda k: sum(int(r.get(k, 0) or 0) for r in results)
    counters = {}
    for r in results:
        for k, n in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + n
    samples = []
    for r in results:
        samples += ["%s%s: %s" % (r["name"], "/" + r["part"] if r["part"] else "", s) for s in (r.get("samples") or [])]
    if len(samples) > 60:
        samples = samples[:60]
    exhaustive = all(r.get("exhaustive", False) for r in results) and not vlist
    coverage = {}
    if meta["level"] == "model_checking":
        coverage.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"))
    else:
        coverage.update(evaluations=tot("evaluations"), distinct_nontrivial=tot("distinct"))
    coverage.update({"rule": meta["rule"], "samples": samples or ["(none)"], "exhaustive": exhaustive, "counters": counters,
                "parts": [{"harness": r["name"], "build": r["job"].get("mode", "asan"), "part": r["part"], "wall_s": round(r["wall"], 1), "exhaustive": r.get("exhaustive", False)} for r in results]})
    states, evals = tot("states"), tot("evaluations")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"], "coverage": coverage,
          "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": len(vlist), "violation_details": vlist}
    path = os.path.join(EVID, prop + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)
    print("%s %s: build %.0f s, total %.0f s, states %d, evaluations %d, exhaustive=%s, violations %d" % (prop, tier, tbuild, time.time() - t0, states, evals, exhaustive, nviol))
    return 1 if nviol else 0

if __name__ == "__main__":
    sys.exit(main())
