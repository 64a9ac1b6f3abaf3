#!/usr/bin/env python3
"""Runs one property check against /repo's working tree.

  check.py <ID> [--tier quick|thorough] [--seed N]   decide the property
  check.py <ID> --replay FILE                        re-run a stored failing case
  check.py --all [--tier ...] [--seed N]             every check, in sequence

Exit 0: held on everything explored.  Exit 1: "VIOLATION property=<ID>
replay=<path>" was printed.  Exit 2: no answer (the harness does not build...).
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# What a run on another tree (a planted bug) finds is kept apart from what is found in /repo.
OUT = V if os.path.abspath(REPO) == "/repo" else V + "/.build/out-" + hashlib.sha256(REPO.encode()).hexdigest()[:10]
sys.path.insert(0, V)
from config import CHECKS, SETS  # noqa: E402

CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-DENABLE_MLPACK=false",
        "-I" + V + "/stubs", "-I" + V + "/pbt", "-I" + V + "/checks", "-w"]
SAN = ["-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,bounds,null,shift-exponent,return,unreachable,bool",
       "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"]

TSAN = ["-fsanitize=thread", "-ftrivial-auto-var-init=pattern"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tree_hash(roots=("/pbt", "/checks")):
    h = hashlib.sha256()
    for root in (REPO + "/source", REPO + "/profile", V + "/stubs") + tuple(V + r for r in roots):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr((BASE, SAN, TSAN)).encode())
    return h.hexdigest()[:16]

def sources(c):
    out = []
    for s in c.get("sources", []):
        if s in SETS:
            for pat in SETS[s]:
                d = os.path.join(REPO, os.path.dirname(pat))
                for f in sorted(os.listdir(d)):
                    if f.endswith(".cpp") and f not in ("concatenate.cpp",) and re.fullmatch(os.path.basename(pat), f):
                        out.append(os.path.join(d, f))
        else:
            out.append(os.path.join(REPO, s))
    return out

def build(pid, c, bdir, fuzz=False):
    """Compiles the harness of one property; returns the binary or None."""
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, pid + ("_fuzz" if fuzz else ""))
    if os.path.exists(exe):
        return exe
    san = list(TSAN if c.get("san") == "thread" else SAN)
    if fuzz:
        san = [s.replace("-fsanitize=", "-fsanitize=fuzzer,") if s.startswith("-fsanitize=") else s for s in san] + ["-DPBT_LIBFUZZER"]
    flags = BASE + san + ["-I" + REPO + "/source", "-DREPO_DIR=\"" + REPO + "\""] + c.get("flags", [])
    jobs = []
    ldir = os.path.join(V, ".build", "lib-" + tree_hash(()))   # objects of the library alone
    os.makedirs(ldir, exist_ok=True)
    for s in [V + "/checks/" + c["harness"], V + "/pbt/pbt_main.cpp"] + sources(c):
        own = s.startswith(V)
        tag = hashlib.sha256((s + repr(flags if own and s.endswith(c["harness"]) else (fuzz, c.get("flags"), c.get("san"))) ).encode()).hexdigest()[:10]
        o = os.path.join(bdir if own else ldir, os.path.basename(s) + "." + tag + ".o")
        jobs.append((s, o))
    def comp(j):
        s, o = j
        if os.path.exists(o):
            return None
        tmp = o + ".tmp%d" % os.getpid()
        r = sh([CXX] + flags + ["-c", s, "-o", tmp])
        if r.returncode:
            return s + "\n" + r.stdout[-3000:]
        os.replace(tmp, o)
        return None
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(comp, jobs) if e]
    if errs:
        print("BUILD FAILED (no answer):\n" + "\n".join(errs))
        return None
    r = sh([CXX] + flags + [o for _, o in jobs] + ["-o", exe + ".tmp", "-lpthread"])
    if r.returncode:
        print("LINK FAILED (no answer):\n" + r.stdout[-3000:])
        return None
    os.replace(exe + ".tmp", exe)
    return exe

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:hard_rss_limit_mb=2500:quarantine_size_mb=8:exitcode=99:"
                         "max_malloc_fill_size=4096:detect_stack_use_after_return=0:detect_container_overflow=1:"
                         "handle_abort=1:symbolize=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=0:history_size=4"
    e["LC_ALL"] = "C"
    return e

def known():
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def run_one(pid, tier, seed):
    t0 = time.time()
    c = CHECKS[pid]
    # A content-addressed build folder: a changed tree never meets old objects.
    bdir = os.path.join(V, ".build", tree_hash())
    if os.path.isdir(V + "/.build"):
        for d in os.listdir(V + "/.build"):
            p = os.path.join(V, ".build", d)
            if p != bdir and time.time() - os.path.getmtime(p) > 7200:
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    exe = build(pid, c, bdir)
    if not exe:
        return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="elv-" + pid + "-")
    try:
        rdir = OUT + "/replays"
        os.makedirs(rdir, exist_ok=True)
        rfile = "%s/%s-seed%d-%s.txt" % (rdir, pid, seed, tier)
        if os.path.exists(rfile):
            os.remove(rfile)
        kn = [k for k in known()["findings"] if k["property"] == pid]
        secs = c.get("quick_s", 20) if tier == "quick" else c.get("thorough_s", 240)
        if os.environ.get("VERIF_SECONDS"):
            secs = float(os.environ["VERIF_SECONDS"])
        mn = c.get("min_cases", 2000)
        cmd = [exe, "--seed", str(seed), "--seconds", str(secs), "--min-cases", str(mn), "--workers",
               str(max(2, min(8, os.cpu_count() or 4))), "--scratch", scratch, "--out", scratch + "/out.json",
               "--replay-out", rfile, "--tier", "1" if tier == "thorough" else "0",
               "--known", ",".join(k["id"] for k in kn), "--case-cpu", os.environ.get("VERIF_CASE_CPU") or str(c.get("case_cpu", 20)), "--tries", str(c.get("tries", 1))]
        r = sh(cmd, env=env())
        if not os.path.exists(scratch + "/out.json"):
            print("runner gave no result:\n" + r.stdout[-2000:])
            return 2
        res = json.load(open(scratch + "/out.json"))
        violated = res["violated"]
        fuzz_ev = None
        if not violated and c.get("fuzz") and (tier == "thorough" or c.get("quick_fuzz_s")):
            fs = c.get("fuzz_s", 180) if tier == "thorough" else c["quick_fuzz_s"]
            fexe = build(pid, c, bdir, fuzz=True)
            if fexe:
                fuzz_ev, violated = fuzz_leg(pid, exe, fexe, fs, seed, scratch, rfile, kn, c)
        samples = [s for s in res["samples"] if s] or ["(none)"]
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
               "rule": res["rule"], "samples": samples, "discarded": res["discards"], "classes": res["labels"],
               "unreproduced_failures": res["unreproduced"], "stuck_cases": res["stuck"]}
        if res["unreproduced"]:
            cov["unreproduced_message"] = res["unreproduced_message"]
        if fuzz_ev:
            cov["libfuzzer"] = fuzz_ev
            cov["evaluations"] += fuzz_ev["executions"]
        missing = [l for l in c.get("require", []) if not res["labels"].get(l)]
        if missing and not violated:
            cov["classes_never_reached"] = missing
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": 1 if violated else 0, "build_s": round(t_build, 2)}
        os.makedirs(OUT + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (OUT, pid), "w"), indent=1)
        for k in kn:
            n = res["known"].get(k["id"], {}).get("count", 0)
            print("KNOWN-FINDING: property=%s %s %s (met %d times in this run)" % (pid, k["id"], k["what"], n))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs%s" % (
            pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], t_build, time.time() - t0,
            " UNREPRODUCED=%d %s" % (res["unreproduced"], res["unreproduced_message"]) if res["unreproduced"] else ""))
        if missing and not violated:
            print("note: classes never reached in this run: " + ", ".join(missing))
        if violated:
            # Confirm the stored replay three times, from the file.
            for _ in range(3):
                q = sh([exe, "--replay", rfile, "--scratch", scratch, "--known", ",".join(k["id"] for k in kn),
                        "--tier", "1" if tier == "thorough" else "0", "--case-cpu", os.environ.get("VERIF_CASE_CPU") or str(c.get("case_cpu", 20)), "--tries", str(c.get("tries", 1))], env=env())
                if q.returncode != 1:
                    print("replay did not fail again; inconclusive:\n" + q.stdout[-1500:])
                    return 2
            print(q.stdout[-3000:])
            print("VIOLATION property=%s replay=%s" % (pid, rfile))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def fuzz_leg(pid, exe, fexe, secs, seed, scratch, rfile, kn, c):
    cdir = scratch + "/corpus"; os.makedirs(cdir)
    adir = scratch + "/art/"; os.makedirs(adir)
    e = env(); e["PBT_SCRATCH"] = scratch; e["PBT_KNOWN"] = ",".join(k["id"] for k in kn)
    n = max(2, min(8, os.cpu_count() or 4))
    procs = []
    for i in range(n):
        d = cdir if i == 0 else cdir + str(i)
        os.makedirs(d, exist_ok=True)
        ws = c.get("fuzz_seeds")
        procs.append(subprocess.Popen([fexe, d, "-max_total_time=%d" % secs, "-seed=%d" % (seed * 100 + i + 1), "-max_len=%d" % c.get("fuzz_len", 1024),
            "-artifact_prefix=" + adir, "-rss_limit_mb=2500", "-timeout=60", "-print_final_stats=1", "-use_value_profile=%d" % (i % 2)],
            stdout=subprocess.DEVNULL, stderr=open(scratch + "/fz%d.log" % i, "w"), env=e))
    execs = cov = 0
    for i, p in enumerate(procs):
        try:
            p.wait(timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
        log = open(scratch + "/fz%d.log" % i, errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s+(\d+)", log)
        execs += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+)", log)
        cov = max(cov, int(m[-1]) if m else 0)
    ev = {"executions": execs, "edges_covered": cov, "seconds": secs, "jobs": n}
    for a in sorted(os.listdir(adir)):
        if a.startswith(("crash-", "timeout-", "oom-")):
            q = sh([exe, "--bytes", adir + a, "--scratch", scratch, "--replay-out", rfile, "--tier", "1",
                    "--known", ",".join(k["id"] for k in kn), "--case-cpu", os.environ.get("VERIF_CASE_CPU") or str(c.get("case_cpu", 20)), "--tries", str(c.get("tries", 1))], env=env())
            if q.returncode == 1:
                ev["violating_artifact"] = a
                return ev, True
    return ev, False

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None; ids = []; i = 0
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 1
        elif a[i] == "--replay": replay = a[i + 1]; i += 1
        elif a[i] == "--all": ids = sorted(CHECKS)
        else: ids.append(a[i])
        i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    if replay:
        exe = build(ids[0], CHECKS[ids[0]], os.path.join(V, ".build", tree_hash()))
        if not exe: return 2
        scratch = tempfile.mkdtemp(prefix="elv-replay-")
        try:
            ks = ",".join(k["id"] for k in known()["findings"] if k["property"] == ids[0])
            q = sh([exe, "--replay", os.path.abspath(replay), "--scratch", scratch, "--known", ks, "--tries", str(CHECKS[ids[0]].get("tries", 1))], env=env())
            print(q.stdout)
            if q.returncode == 1: print("VIOLATION property=%s replay=%s" % (ids[0], replay))
            return q.returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    rc = 0
    for p in ids:
        rc = max(rc, run_one(p, tier, seed))
    return rc

if __name__ == "__main__":
    sys.exit(main())
