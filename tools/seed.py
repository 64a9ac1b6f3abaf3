#!/usr/bin/env python3
"""Plants one bug in a scratch copy and judges it: seed.py SPEC.py [ID...] [--no-check] [--no-tests] [--keep]

SPEC.py defines BUGS = [dict(id, property, file | edits, old, new, what, needs, demo (C++ text), sources)].
Writes /verif/seeded/<ID>/ only when the bug builds, passes the repository's tests and its demonstration
passes on the unchanged tree and fails with the bug."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"; BASE = "4ea01c7"
DEMO = r'''#!/bin/bash
# Builds demo.cpp against the sources of the current directory (the repository) and runs it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
flags="-std=c++17 -O1 -w -DENABLE_MLPACK=false -I$here -I$repo/source"
units="$here/demo.cpp"
for u in %s; do units="$units $repo/source/$u"; done
printf '%%s\n' $units | xargs -P 8 -I{} sh -c "g++ $flags -c {} -o $work/\$(echo {} | tr / _).o" || exit 3
g++ $work/*.o -o "$work/demo" -lpthread || exit 3
mkdir "$work/run" && cd "$work/run" && timeout 120 "$work/demo"
'''
def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]; opts = set(sys.argv[1:]) - set(args)
    ns = {}; exec(open(args[0]).read(), ns)
    for b in ns["BUGS"]:
        if args[1:] and b["id"] not in args[1:]: continue
        one(b, opts, ns)
def one(b, opts, ns):
    m = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); mut = m + "/repo"
    try:
        sh("git -C %s worktree prune; git clone -q %s %s" % (REPO, REPO, mut))
        removed = []
        for (f, old, new) in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            p = mut + "/source/" + f; s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT matches", s.count(old), f); return
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", mut)[1]
        # the changed lines must be original ones
        theirs = False
        for f in set(re.findall(r"^\+\+\+ b/(.*)$", diff, re.M)):
            base = set(sh("git show %s:%s" % (BASE, f), REPO)[1].splitlines())
            for h in re.findall(r"^-(?!-- )(.*)$", diff, re.M):
                if h in base and h.strip() not in ("", "{", "}"): theirs = True
        if not theirs: print(b["id"], "WARNING changes no original line")
        d = m + "/d"; os.mkdir(d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        if "demo" in b:
            srcs = {"": "", "dnn": "$(cd $repo/source && ls dnn/*.cpp | grep -v concatenate)", "net": "$(cd $repo/source && ls dnn/*.cpp | grep -v concatenate) parser/parser.cpp middleware/fnn.cpp middleware/layer_descriptor.cpp", "json": "parser/parser.cpp", "dnnjson": "$(cd $repo/source && ls dnn/*.cpp | grep -v concatenate) parser/parser.cpp"}[b.get("sources", "")]
            open(d + "/demo.sh", "w").write(DEMO % srcs); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write(ns.get("PRE", "") + b["demo"])
            if "dnn" in srcs or b.get("stub") or "dlmath" in b["demo"] or "data/" in b["demo"]:
                os.makedirs(d + "/betterthreads"); shutil.copy(V + "/stubs/betterthreads/task_manager.hpp", d + "/betterthreads/task_manager.hpp")
            r0, o0 = sh("bash %s/demo.sh" % d, REPO); r1, o1 = sh("bash %s/demo.sh" % d, mut)
            ok = r0 == 0 and r1 not in (0, 3)
            print(b["id"], "demo", r0, r1, "ok" if ok else "BAD\n" + o0[-1500:] + "\n---\n" + o1[-1500:], o1[-200:].strip() if ok else "")
        else: ok = False; print(b["id"], "no demo")
        if "--no-tests" not in opts:
            r, o = sh("bash /tmp/tb/bt.sh %s %s/out 2>&1 | grep -E 'COMPILEFAIL|error'; cd %s; n=0; for t in %s/out/test_*; do [ -x $t ] && { n=$((n+1)); timeout 300 $t >/dev/null 2>&1 || echo FAIL $t; }; done; echo ran $n" % (mut, m, mut, m))
            print(b["id"], "tests", " ".join(o.split()))
            if "FAIL" in o or "error" in o: ok = False
        if ok:
            t = V + "/seeded/" + b["id"]
            if os.path.isdir(t): shutil.rmtree(t)
            shutil.copytree(d, t); print(b["id"], "kept")
        if "--no-check" not in opts:
            ids = b.get("checks") or [b["property"]]
            for i in ids:
                r, o = sh("python3 check.py %s" % i, V, dict(os.environ, VERIF_REPO=mut))
                hit = [l for l in o.splitlines() if "VIOLATION" in l]
                print(b["id"], i, "exit", r, hit[:1] or o.splitlines()[-1:], flush=True)
                if "--verbose" in opts: print(o[-3000:])
    finally:
        if "--keep" not in opts: shutil.rmtree(m)
        else: print(m)
main()
