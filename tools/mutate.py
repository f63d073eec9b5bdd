#!/usr/bin/env python3
"""Development aid: plants small syntactic changes in a scratch copy of the library and lists those that no check notices.

  mutate.py WORKDIR WORKER NWORKERS SEED MAXPERFILE [file-regex]
Runs from a scratch copy of /verif as an unprivileged user; survivors go to WORKDIR/survivors.<worker>."""
import fcntl, hashlib, os, random, re, shutil, subprocess, sys, json, time
WORK, W, NW, SEED, MAXPF = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
FRE = sys.argv[6] if len(sys.argv) > 6 else "."
FILES = {
 "sync/sync_util.cpp": ["C03","C02","C05","C06","C01","C04","C07","C31"],
 "sync/sync_mutex.cpp": ["C01","C06","C05","C31"], "sync/sync_semaphore.cpp": ["C02","C06","C05","C31"], "sync/sync_event.cpp": ["C03","C06","C05","C31"],
 "sync/sync_readwritelock.cpp": ["C04","C05","C06","C31"], "sync/sync_sharedmem.cpp": ["C07","C06"], "sync/sync_mutex.h": ["C01"], "sync/sync_tls.cpp": ["C08","C20","C31","C15"], "sync/sync_tls.h": ["C08","C20"],
 "templates/detachable_ordered_hash_util.h": ["C09","C32"], "templates/detachable_ordered_hash.h": ["C09","C32"], "templates/detachable_ordered_hash.cpp": ["C32","C09"],
 "templates/packed_ordered_hash_util.h": ["C10","C32"], "templates/packed_ordered_hash.h": ["C10","C32"], "templates/packed_ordered_hash.cpp": ["C32","C10"],
 "templates/detachable_list_util.h": ["C11"], "templates/detachable_queue_util.h": ["C11","C08"], "templates/detachable_list.h": ["C11"], "templates/detachable_queue.h": ["C11"],
 "templates/cache_util.h": ["C12"], "templates/cache.cpp": ["C32","C12"], "templates/cache.h": ["C12"], "templates/static_vector.h": ["C12","C08"], "templates/static_2d_array.h": ["C12"],
 "templates/fast_find_replace_util.h": ["C13","C14"], "templates/fast_find_replace.h": ["C13","C14"],
 "convert/convert_int.cpp": ["C15","C16"], "utf8/utf8_util.cpp": ["C17","C18"], "utf8/utf8_util.h": ["C17","C18"],
 "templates/static_mixed_var.h": ["C19","C15"], "utf8/utf8_mixed_var.h": ["C19","C20"],
 "json/json_serializer.cpp": ["C21","C22","C15"], "json/json_serializer.h": ["C21","C22"],
 "utf8/utf8_file_dir.cpp": ["C23","C24","C25","C26"], "utf8/utf8_file_dir.h": ["C23","C24","C25","C26"],
 "security/security_csprng.cpp": ["C27"], "security/security_csprng.h": ["C27"],
 "utf8/utf8_appinfo.cpp": ["C28"], "environment/environment_appinfo.cpp": ["C28"],
 "templates/shared_lib.h": ["C29"], "templates/shared_lib_util.h": ["C29"],
}
def active(lines):
    out, stack = [], []
    for l in lines:
        s = l.strip()
        if s.startswith("#if"):
            win = bool(re.search(r"WIN32|WIN64|__APPLE__|_MSC_VER|__MINGW", s)) and "#ifndef" not in s and "!defined" not in s
            stack.append([win, True]); out.append(False); continue
        if s.startswith("#else") or s.startswith("#elif"):
            if stack: stack[-1][0] = (not stack[-1][0]) if stack[-1][0] else False
            out.append(False); continue
        if s.startswith("#endif"):
            if stack: stack.pop()
            out.append(False); continue
        out.append(not any(x[0] for x in stack) and not s.startswith(("//", "#", "*", "/*")) and s not in ("", "{", "}"))
    return out
REL = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
       (" + 1", ""), (" - 1", ""), (" + 1", " + 2"), ("++;", "--;"), ("--;", "++;"), (" + ", " - "), (" - ", " + "), (" % ", " / "), ("return true;", "return false;"), ("return false;", "return true;"),
       (" += ", " -= "), (" -= ", " += "), ("!", ""), ("true", "false"), ("false", "true"), ("NULL", "NULL"), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & ")]
def mutants(path):
    lines = open(path, newline="", encoding="latin-1").read().split("\n")
    act = active(lines)
    res = []
    for i, l in enumerate(lines):
        if not act[i]: continue
        code = l.split("//")[0].rstrip("\r ")
        for o, n in REL:
            if o == n: continue
            for m in re.finditer(re.escape(o), code):
                if o == "!" and code[m.start():m.start()+2] == "!=": continue
                res.append((i, code[:m.start()] + n + code[m.end():]))
        for m in re.finditer(r"(?<![\w.'\\x])(\d+)(?![\w.'])", code):
            v = int(m.group(1))
            res.append((i, code[:m.start()] + str(v + 1) + code[m.end():]))
            if v: res.append((i, code[:m.start()] + str(v - 1) + code[m.end():]))
        for m in re.finditer(r"0x([0-9A-Fa-f]+)", code):
            v = int(m.group(1), 16)
            res.append((i, code[:m.start()] + hex(v + 1) + code[m.end():]))
            if v: res.append((i, code[:m.start()] + hex(v - 1) + code[m.end():]))
        st = code.strip()
        if st.endswith(";") and not re.match(r"(return|break|continue|public|private|typedef|using|case|default|static|const|std::\w+ |int |size_t |char |bool |double |struct |class |virtual |inline |template |friend )", st):
            if st.startswith("if (") or st.startswith("else"):
                m = re.match(r"(\s*(?:else )?if \(.*\)\s\s)(.*)$", code)
                if m:
                    res.append((i, m.group(1) + ";"))
                    res.append((i, code.replace(m.group(1).strip(), "", 1)) if not st.startswith("else") else (i, m.group(1) + ";"))
            else:
                res.append((i, code[:len(code) - len(code.lstrip())] + ";"))
        if st in ("break;", "continue;"): res.append((i, ";"))
        m = re.match(r"^(\s*(?:else )?if )\((.*)\)$", code)
        if m:
            res.append((i, m.group(1) + "(true)")); res.append((i, m.group(1) + "(false)"))
            if m.group(2).count("&&") == 1:
                a, b = m.group(2).split(" && "); 
                if a.count("(") == a.count(")"): res.append((i, m.group(1) + "(" + a + ")")); res.append((i, m.group(1) + "(" + b + ")"))
    seen, out = set(), []
    for i, n in res:
        if (i, n) in seen or n == lines[i].rstrip("\r"): continue
        seen.add((i, n)); out.append((i, n))
    return lines, out

ROOT = os.path.join(WORK, "w%d" % W)
REPO, VER = ROOT + "/repo", ROOT + "/verif"
for d, s in ((REPO, "/repo"), (VER, WORK + "/verif.src")):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(s, d, ignore=shutil.ignore_patterns("_build", ".git", "build", "seeded", "replay"))
ENV = dict(os.environ, VERIF_REPO=REPO, VERIF_JOBS="2", VERIF_CASE_TIMEOUT="10", CCACHE_DIR=WORK + "/ccache", CCACHE_CONFIGPATH="/dev/null", HOME=ROOT)
def sh(c, timeout=600, **k):
    try:
        return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout = 124, "timeout"
        return R
def check(p, scale):
    r = sh([sys.executable, "run.py", p, "quick"], cwd=VER, env=dict(ENV, VERIF_SCALE=str(scale)))
    k = re.search(r"violation: driver=\S+ key=(\S+)", r.stdout)
    return r.returncode, k.group(1) if k else r.stdout[-300:]
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests():
    with open(WORK + "/test.lock", "w") as lk:
        r = sh("rm -rf _build/obj _build/test_suite; mkdir -p _build/cwd; make -B -j4 --no-print-directory -f /opt/vp/suite.mk _build/test_suite", shell=True, cwd=REPO, env=ENV)
        if r.returncode: return "nobuild"
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh("rm -f /dev/shm/Sync_*-test_suite /dev/shm/Sync_*-test_suite2; cd _build/cwd; timeout -k 5 60 ../test_suite > ../log 2>&1; echo $? > ../rc; rm -f /dev/shm/Sync_*-test_suite /dev/shm/Sync_*-test_suite2", shell=True, cwd=REPO, env=ENV)
    r = sh(["python3", "/opt/vp/parse.py", REPO + "/_build/log", open(REPO + "/_build/rc").read().strip()])
    ok = set(l[5:] for l in r.stdout.splitlines() if l.startswith("PASS "))
    return "pass" if BASE <= ok else "fail"
if os.environ.get("MUT_BASELINE"):
    for p in sorted(set(x for v in FILES.values() for x in v)): print(p, check(p, 0.1), flush=True)
    print("tests", tests())
    sys.exit()
todo = []
for f in sorted(FILES):
    if not re.search(FRE, f): continue
    lines, ms = mutants(os.path.join(REPO, f))
    random.Random(hashlib.sha1(("%s%d" % (f, SEED)).encode()).hexdigest()).shuffle(ms)
    for m in ms[:MAXPF]: todo.append((f, m))
random.Random(SEED).shuffle(todo)
mine = todo[W::NW]
print(len(todo), "mutants,", len(mine), "mine", flush=True)
surv = open(WORK + "/survivors.%d" % W, "a")
log = open(WORK + "/log.%d" % W, "a")
for n, (f, (i, new)) in enumerate(mine):
    path = os.path.join(REPO, f)
    orig = open(path, newline="", encoding="latin-1").read()
    L = orig.split("\n")
    old = L[i]
    L[i] = new + ("\r" if old.endswith("\r") else "")
    open(path, "w", newline="", encoding="latin-1").write("\n".join(L))
    res, t0 = None, time.time()
    try:
        for p in FILES[f]:
            rc, k = check(p, 0.08)
            if rc == 1: res = "killed %s %s" % (p, k); break
            if rc == 2 and "build of" in k or "error:" in k: res = "nobuild"; break
        if res is None:
            t = tests()
            if t != "pass": res = "tests:" + t
        if res is None:
            for p in FILES[f]:
                rc, k = check(p, 1)
                if rc == 1: res = "killed-full %s %s" % (p, k); break
                if rc != 0: res = "ODD %s rc=%s %s" % (p, rc, k.replace("\n", " ")); break
        if res is None: res = "SURVIVED"
    finally:
        open(path, "w", newline="", encoding="latin-1").write(orig)
    line = "%s:%d %s\n    - %s\n    + %s\n" % (f, i + 1, res, old.strip(), new.strip())
    log.write("%.0fs " % (time.time() - t0) + line); log.flush()
    if res == "SURVIVED" or res.startswith("ODD"): surv.write(line); surv.flush()
print("done", flush=True)
