#!/usr/bin/env python3
"""Builds and runs the runtime-monitoring check of one property against /repo's working tree.

  run.py <property> [quick|thorough]        the registered check
  run.py --replay <file>                    re-run one recorded case
  run.py --setup                            check the tool chain
  run.py --all [quick|thorough]             every check (development)

Exit 0: held on everything observed.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import json, tempfile, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS") or max(2, min(8, os.cpu_count() or 8)))
SCALE = float(os.environ.get("VERIF_SCALE") or 1)       # development: fewer cases

from checks import CHECKS, FLAVOURS      # noqa: E402

ENV_EXTRA = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3000:handle_abort=1:handle_sigill=1:strict_string_checks=0:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
    "LC_ALL": "C.UTF-8",
}


class CheckError(Exception):
    pass


def log(msg):
    print(msg, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(prop, driver, bdir):
    """Compiles the library sources this driver uses, and the driver, from the current working tree."""
    fl = FLAVOURS[driver["flavour"]]
    odir = os.path.join(bdir, driver["name"] + ".o.d")
    os.makedirs(odir, exist_ok=True)
    inc = ["-I" + REPO, "-I" + HARNESS]
    jobs, objs = [], []
    syms = driver.get("syms")
    for src in driver.get("repo", []):
        obj = os.path.join(odir, "repo_" + src.replace("/", "_") + ".o")
        jobs.append(("repo", [fl["cxx"]] + fl["repo_flags"] + driver.get("repo_extra", []) + inc + ["-c", os.path.join(REPO, src), "-o", obj], obj))
        objs.append(obj)
    for src in driver["harness"]:
        obj = os.path.join(odir, "h_" + src + ".o")
        jobs.append(("harness", [fl["cxx"]] + fl["flags"] + driver.get("extra", []) + inc + ["-c", os.path.join(HARNESS, src), "-o", obj], obj))
        objs.append(obj)

    def one(j):
        kind, cmd, obj = j
        r = sh(cmd)
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
        if kind == "repo" and syms:
            r = sh(["objcopy", "--redefine-syms=" + os.path.join(HARNESS, syms), obj])
            if r.returncode:
                return r.stdout
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise CheckError("build of %s failed:\n%s" % (driver["name"], errs[0]))
    exe = os.path.join(bdir, driver["name"])
    r = sh([fl["cxx"]] + fl["flags"] + objs + ["-o", exe] + fl.get("libs", []) + driver.get("libs", []))
    if r.returncode:
        raise CheckError("link of %s failed:\n%s" % (driver["name"], r.stdout[-4000:]))
    for aux in driver.get("aux", []):
        r = sh([x.format(dir=bdir, harness=HARNESS, repo=REPO) for x in aux])
        if r.returncode:
            raise CheckError("auxiliary build failed:\n%s" % r.stdout[-4000:])
    return exe


def crash_key(out):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(?: .*? in ([^\n]+))?", out)
    if m:
        fn = re.sub(r"\(.*", "", m.group(3) or "").strip()
        return "%s:%s:%s" % (m.group(1), m.group(2), re.sub(r"[^\w:~]+", "_", fn))
    m = re.search(r"runtime error: ([^\n]+)", out)
    if m:
        return "ubsan:" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'|0x[0-9a-f]+|\d+", "", m.group(1).lower())).strip("-")[:60]
    m = re.search(r"(hard rss limit exhausted)", out)
    if m:
        return "memory-exhausted"
    return "crash"


def crash_msg(out):
    lines = [l for l in out.splitlines() if re.search(r"ERROR: |WARNING: ThreadSan|runtime error|SUMMARY|^\s+#[0-5] |READ of|WRITE of|Hint", l)]
    return " / ".join(l.strip() for l in lines[:14])[:1600]


def run_driver_once(driver, exe, seed, tier, lo, hi, step, out, scratch, replay=False, timeout_scale=1, stop=None, deadline=None):
    os.makedirs(scratch, exist_ok=True)
    to = int(os.environ.get("VERIF_CASE_TIMEOUT") or driver.get("case_timeout", 40)) * timeout_scale
    cmd = driver.get("prefix", []) + [exe, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--step", str(step), "--out", out, "--scratch", scratch, "--timeout", str(to)]
    if tier == "thorough":
        cmd.append("--thorough")
    if replay:
        cmd.append("--replay")
    env = dict(os.environ)
    env.update(ENV_EXTRA)
    env["LOCPATH"] = os.path.join(HARNESS, "locale")
    env.update(driver.get("env", {}))
    logf = out + ".log"
    cap = driver.get("wall", {"quick": 420, "thorough": 5400})[tier]
    with open(logf, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
        t0, rc = time.time(), None
        while rc is None:
            try:
                rc = p.wait(timeout=0.25)
            except subprocess.TimeoutExpired:
                now = time.time()
                if stop and now - stop[0] > 15:
                    rc = "stopped"
                elif now - t0 > cap or (deadline and now > deadline):
                    rc = "cap"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(logf, "rb") as lf:
        text = lf.read()[-400000:].decode("utf-8", "replace")
    cur = None
    try:
        with open(out + ".case", "rb") as f:
            cur = int.from_bytes(f.read(8), "little")
    except OSError:
        pass
    return rc, text, cur


def interpret(rc, text, cur):
    """-> (kind, key, case, msg); kind in ok, viol, hang, killed, cap, harness"""
    m = re.search(r"^VIOL\t([^\t]*)\t(\d+)\t(.*)$", text, re.M)
    if m:
        return "viol", m.group(1), int(m.group(2)), m.group(3)
    if re.search(r"AddressSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer|runtime error:|hard rss limit", text) and rc != 0:
        return "viol", crash_key(text), cur, crash_msg(text)
    if rc == 0 and re.search(r"^DONE\t", text, re.M):
        return "ok", None, None, None
    m = re.search(r"^HANG\t(\d+)$", text, re.M)
    if m:
        return "hang", "hang", int(m.group(1)), "the case did not finish within its time limit"
    if rc == "stopped":
        return "stopped", "stopped", cur, "stopped because a violation is already known"
    if rc == "cap":
        return "cap", "cap", cur, "wall clock cap"
    if isinstance(rc, int) and rc < 0:
        if -rc in (signal.SIGKILL, signal.SIGTERM):
            return "killed", "killed", cur, "killed by signal %d" % -rc
        return "viol", "crash:signal-%d" % -rc, cur, "the driver died with signal %d: %s" % (-rc, text[-600:])
    return "harness", "harness", cur, "driver ended with %r: %s" % (rc, text[-1500:])


def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    bdir = os.path.join(VERIF, "build", prop)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    findings = load_findings()
    known = [k for k in findings.get("known", []) if k["property"] == prop]
    violations, cov, samples, assumptions = [], {}, [], list(spec.get("assumptions", []))
    seen_findings = {}
    evals = nontriv = inconc = 0
    sigs = set()
    inconclusive_notes = []
    harness_errors = []

    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda d: build(prop, d, bdir), spec["drivers"]))

    # Whatever happens, a quick check answers within its time: what it could not look at is reported as inconclusive.
    deadline = t0 + 660 if tier == "quick" else None

    for driver, exe in zip(spec["drivers"], exes):
        if violations or (deadline and time.time() > deadline):
            inconc += 1
            inconclusive_notes.append("%s not run: %s" % (driver["name"], "a violation is already known" if violations else "out of time"))
            continue
        n = max(8, int(driver["cases"][tier] * SCALE))
        shards = driver.get("shards", JOBS)
        shards = max(1, min(shards, n))

        # File system drivers work on a memory file system where there is room for it.
        sbase = bdir
        if driver.get("shm"):
            try:
                st = os.statvfs("/dev/shm")
                if st.f_bavail * st.f_frsize > (2 << 30):
                    sbase = tempfile.mkdtemp(prefix="vfscratch.", dir="/dev/shm")
            except OSError:
                pass

        found = []

        def shard(i):
            out = os.path.join(bdir, "%s.%d" % (driver["name"], i))
            scratch = os.path.join(sbase, "%s.scratch.%d" % (driver["name"], i))
            rc, text, cur = run_driver_once(driver, exe, seed, tier, i, n, shards, out, scratch, stop=found, deadline=deadline)
            res = interpret(rc, text, cur)
            mine = not driver.get("only") or re.search(driver["only"], res[1] or "")
            if res[0] == "viol" and mine:
                found.append(time.time())
            if res[0] == "stopped":
                res = ("inconclusive", res[1], res[2], res[3])
            elif res[0] in ("hang", "killed", "cap") and found:
                res = ("inconclusive", res[1], res[2], "%s at case %s, not tried again because a violation is already known" % (res[3], res[2]))
            elif res[0] in ("hang", "killed", "cap") and res[2] is not None:
                # Once more, alone in its process and with a longer limit, before believing it.
                rc2, text2, cur2 = run_driver_once(driver, exe, seed, tier, res[2], res[2] + 1, 1, out + ".again", scratch + ".again", True, 2, stop=found)
                res2 = interpret(rc2, text2, cur2)
                if (res2[0] == "viol" or (res2[0] == "hang" and res[0] in ("hang", "cap"))) and (not driver.get("only") or re.search(driver["only"], res2[1])):
                    found.append(time.time())
                if res2[0] == "hang" and res[0] in ("hang", "cap"):
                    res = ("viol", "hang", res[2], "the case did not finish within its time limit, twice")
                elif res2[0] == "viol":
                    res = res2
                else:
                    res = ("inconclusive", res[1], res[2], "%s at case %s, not reproduced" % (res[3], res[2]))
                text = text + "\n---- second run ----\n" + text2
            elif res[0] == "harness":
                rc2, text2, cur2 = run_driver_once(driver, exe, seed, tier, i, n, shards, out, scratch + ".again")
                res2 = interpret(rc2, text2, cur2)
                if res2[0] == "ok" or res2[0] == "viol":
                    res, text = res2, text2
            shutil.rmtree(scratch, ignore_errors=True)
            shutil.rmtree(scratch + ".again", ignore_errors=True)
            return out, res, text
        with ThreadPoolExecutor(driver.get("parallel", JOBS)) as ex:
            results = list(ex.map(shard, range(shards)))
        if sbase != bdir:
            shutil.rmtree(sbase, ignore_errors=True)
        for out, (kind, key, case, msg), text in results:
            for m in re.finditer(r"^FINDING\t([^\t]*)\t(.*)$", text, re.M):
                seen_findings[m.group(1)] = m.group(2)
            if kind == "viol" and driver.get("only") and not re.search(driver["only"], key):
                # A workload shared with another property: what it saw is that property's business.
                kind, msg = "inconclusive", "%s stopped by something another property decides (%s at case %s)" % (driver["name"], key, case)
            if kind == "viol":
                violations.append({"driver": driver["name"], "key": key, "case": case, "seed": seed, "message": msg, "log_tail": text[-6000:]})
            elif kind == "inconclusive":
                inconc += 1
                inconclusive_notes.append(msg)
            elif kind == "harness":
                harness_errors.append("%s: %s" % (driver["name"], msg))
            try:
                with open(out + ".json") as f:
                    st = json.load(f)
                evals += st["evaluations"]
                nontriv += st["nontrivial"]
                inconc += st["inconclusive"]
                for k, v in st["counters"].items():
                    kk = "%s/%s" % (driver["name"], k)
                    cov[kk] = cov.get(kk, 0) + v
                if len(samples) < 6:
                    samples += ["%s: %s" % (driver["name"], s) for s in st["samples"][:2]]
                with open(out + ".sig", "rb") as f:
                    b = f.read()
                sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
            except OSError:
                pass

    # Findings the drivers demonstrate on specific inputs.
    listed = {k["id"]: k for k in known}
    known_lines = []
    for fid, what in sorted(seen_findings.items()):
        if fid in listed:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, listed[fid]["what"]))
        else:
            violations.append({"driver": "finding", "key": fid, "case": None, "seed": seed, "message": what, "log_tail": ""})

    for l in known_lines:
        log(l)
    uniq = {}
    for v in violations:
        uniq.setdefault((v["driver"], v["key"]), v)
    paths = []
    for i, v in enumerate(uniq.values()):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        v = dict(v, property=prop, tier=tier)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        paths.append(path)
        log("violation: driver=%s key=%s case=%s: %s" % (v["driver"], v["key"], v["case"], v["message"][:1500]))
    for n_ in inconclusive_notes:
        log("inconclusive: " + n_)

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs), "nontrivial": nontriv, "inconclusive": inconc,
            "rule": spec["rule"], "samples": samples or ["(none)"], "observed": cov,
            "drivers": [{"name": d["name"], "build": d["flavour"], "cases": d["cases"][tier]} for d in spec["drivers"]],
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(uniq),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(bdir, ignore_errors=True)

    log("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d inconclusive, %.1f s" % (prop, tier, seed, evals, len(sigs), inconc, time.time() - t0))
    if uniq:
        for path in paths:
            log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness_errors:
        for e in harness_errors:
            log("CHECK-ERROR " + e)
        return 2
    if evals == 0 or not sigs:
        log("CHECK-ERROR nothing was observed")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    spec = CHECKS[v["property"]]
    driver = [d for d in spec["drivers"] if d["name"] == v["driver"]][0]
    bdir = os.path.join(VERIF, "build", "replay")
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    exe = build(v["property"], driver, bdir)
    rc, text, cur = run_driver_once(driver, exe, v["seed"], v["tier"], v["case"], v["case"] + 1, 1, os.path.join(bdir, "r"), os.path.join(bdir, "scratch"), True)
    print(text[-8000:])
    kind = interpret(rc, text, cur)
    print(kind[:3])
    shutil.rmtree(bdir, ignore_errors=True)
    return 1 if kind[0] in ("viol", "hang") else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        for tool in ("clang++", "g++", "objcopy", "python3"):
            if not shutil.which(tool):
                print("missing tool", tool)
                return 2
        for d in ("build", "replay", "evidence"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ids = sorted(CHECKS) if sys.argv[1] == "--all" else [sys.argv[1]]
    worst = 0
    for i in ids:
        try:
            r = check(i, tier)
        except CheckError as e:
            log("CHECK-ERROR %s" % e)
            r = 2
        worst = max(worst, r)
    return worst


if __name__ == "__main__":
    sys.exit(main())
