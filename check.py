#!/usr/bin/env python3
"""check.py <ID>: builds the harness programs of a property from /repo, runs them, judges, writes evidence."""
import json, os, re, shutil, signal, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
from checks import CHECKS

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=%s:halt_on_error=1:abort_on_error=0:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=0:allocator_may_return_null=1:"
                    "max_allocation_size_mb=8192",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
}


def known_findings(pid):
    """lines 'finding: property=<id> key=<key> <text>' of known-findings.txt; returns {key: text}"""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    return r


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+")


def crash_key(err, rc):
    """names a crash by its kind and the first frame inside /repo/src (no line numbers)"""
    kind = None
    for pat, name in ((r"ERROR: AddressSanitizer: ([\w-]+)", "asan"), (r"runtime error: ([^\n]+)", "ubsan"),
                      (r"WARNING: ThreadSanitizer: ([\w -]+)", "tsan"), (r"ERROR: LeakSanitizer: ([\w ]+)", "lsan"),
                      (r"Assertion `([^']+)' failed", "assert"), (r"terminate called[^\n]*", "terminate")):
        m = re.search(pat, err)
        if m:
            what = m.group(1) if m.groups() else "uncaught"
            what = re.sub(r"0x[0-9a-f]+|\d+", "N", what)
            kind = name + ":" + re.sub(r"[^\w<>=!&|+-]+", "-", what)[:50].strip("-")
            break
    if kind is None:
        kind = "exit:%s" % rc
    fn = ""
    for m in FRAME.finditer(err):
        if B.REPO + "/" in m.group(2) or "/repo/" in m.group(2):
            fn = re.sub(r"[^\w:~]+", "-", re.sub(r"\(.*", "", m.group(1)))[:60]
            break
    return kind + ("@" + fn if fn else "")


def run_once(exe, args, env, timeout, errpath):
    t = time.time()
    with open(errpath, "wb") as ef:
        p = subprocess.Popen([exe] + args, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            to, rc = True, None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err = open(errpath, errors="replace").read()
    return rc, to, err, time.time() - t


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = os.path.join(B.OUT, "run", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    runs = spec["runs"]
    try:
        exes = B.build([dict(name=r["prog"], srcs=r.get("srcs", [r["prog"] + ".cpp"]), flavor=r["flavor"],
                             full=r.get("full", False), flags=r.get("cflags", ""), libs=r.get("libs", "")) for r in runs])
    except B.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    tb = time.time() - t0
    total = dict(evaluations=0, distinct=0)
    counters, samples, viols, notes = {}, [], [], []
    error = None
    known = known_findings(pid)
    for i, r in enumerate(runs):
        reps = r.get("reps", 1) if tier == "quick" else r.get("reps_thorough", r.get("reps", 1))
        for rep in range(reps):
            env = dict(os.environ)
            for k, v in SAN_ENV.items():
                env[k] = v % ("1" if r.get("leaks", True) else "0") if "%s" in v else v
            env.update(r.get("env", {}))
            rseed = seed * 1000 + rep if rep else seed
            tag = "%s.%s.%d" % (r["prog"], r["flavor"], rep)
            outp, crumb, errp = (os.path.join(work, tag + x) for x in (".json", ".crumb", ".err"))
            base = ["--seed", str(rseed), "--tier", tier] + [str(a) for a in r.get("args", [])]
            args = base + ["--out", outp, "--crumb", crumb]
            timeout = r.get("timeout", 120) if tier == "quick" else r.get("timeout_thorough", 1800)
            exe = exes[(r["prog"], r["flavor"])]
            for attempt in (0, 1):
                if os.path.exists(outp):
                    os.unlink(outp)
                rc, to, err, dt = run_once(exe, args, env, timeout, errp)
                if "LeakSanitizer has encountered a fatal error" in err:
                    env["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"] % "0"
                    notes.append("leak detection unavailable here")
                    continue
                if not to:
                    break
            crumbtext = open(crumb, errors="replace").read().split("\0")[0] if os.path.exists(crumb) else ""
            data = None
            if os.path.exists(outp):
                try:
                    data = json.load(open(outp))
                except ValueError:
                    data = None
            found = []
            if to:
                found.append(dict(key="hang:" + (re.sub(r"--case \d+", "", crumbtext).replace("--part", "").strip() or r["prog"]),
                                  detail="no progress within %d s, twice" % timeout, at=crumbtext))
            elif rc == 77:
                error = "harness error in %s: %s" % (tag, err[-1500:])
            elif rc in (0, 1) and data is not None:
                found += data["violations"]
                if rc == 1 and not data["violations"]:
                    error = "exit 1 without a violation in " + tag
            elif data is not None and rc == 99 and "LeakSanitizer" in err:
                found += data["violations"]
                found.append(dict(key=crash_key(err, rc), detail=err[-1800:], at="end of run"))
            elif rc == -signal.SIGKILL:
                error = "%s was killed (memory?)" % tag
            else:
                ck = crash_key(err, rc)
                found.append(dict(key=ck, detail=(err[:3500] if len(err) < 3500 else err[:2500] + "\n...\n" + err[-800:]), at=crumbtext))
            if data:
                total["evaluations"] += data["evaluations"]
                total["distinct"] += data["distinct"]
                for k, v in data["counters"].items():
                    counters[tag.rsplit(".", 1)[0] + ":" + k] = counters.get(tag.rsplit(".", 1)[0] + ":" + k, 0) + v
                for s in data["samples"]:
                    if len(samples) < 12:
                        samples.append("[%s] %s" % (tag, s))
            notes.append("%s seed=%d rc=%s %.1fs" % (tag, rseed, "timeout" if to else rc, dt))
            for f in found:
                f.update(run=tag, cmd=[exe] + base + (f["at"].split() if f["at"].startswith("--part") else []),
                         env={k: env[k] for k in list(SAN_ENV) + list(r.get("env", {}))})
                viols.append(f)
            if error or any(v["key"] not in known for v in viols):
                break
        if error or any(v["key"] not in known for v in viols):
            break
    printed, new = set(), []
    for v in viols:
        if v["key"] in known:
            if v["key"] not in printed:
                printed.add(v["key"])
                print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]))
        else:
            new.append(v)
    rdir = os.path.join(evdir, "replays")
    lines = []
    for k, v in enumerate(new[:10]):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%d.json" % (pid, k))
        json.dump(dict(property=pid, key=v["key"], detail=v["detail"], case=v["at"], run=v["run"], seed=seed, tier=tier,
                       command=v["cmd"], env=v["env"]), open(rp, "w"), indent=1)
        print("%s: %s: %s" % (pid, v["key"], v["detail"][:600].replace("\n", " | ")))
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
    cov = dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"], rule=spec["rule"],
               samples=samples or ["(none)"], monitors=counters, runs=notes, build_s=round(tb, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for l in lines:
        print(l)
    if new:
        return 1
    if error:
        print("ERROR: " + error)
        return 2
    if total["evaluations"] == 0 or total["distinct"] < spec.get("min_distinct", 2):
        print("ERROR: nothing was observed")
        return 2
    print("OK property=%s evaluations=%d distinct=%d build=%.1fs wall=%.1fs" % (
        pid, total["evaluations"], total["distinct"], tb, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.exit(rc)
