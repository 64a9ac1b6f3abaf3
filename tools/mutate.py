#!/usr/bin/env python3
"""Mutation testing of the checks themselves: mutate.py FILE.. [--n N] [--seed S] [--seconds T]

Makes N small random changes (one per mutant) to source files of a scratch clone of /repo, runs the checks
that cover the file with a short time budget and prints the survivors for a person to judge (many are
equivalent).  Nothing here is a registered check; FILE is relative to /repo/source (or profile/)."""
import os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
import json
EXTRA = {"data/path": "D08 P01 M01", "profile/": "P01", "dnn/layer": "L12 M01 M02 M10 M11 K01 M09", "dnn/feedforward": "L12 L05 M01", "dnn/pooling": "L12 L05 M10 M01", "type": "L12 M02 M01",
         "dnn/dense": "L12 L05 M10 M01 M06 K02", "dnn/loss": "L08 M02 M11 K02 M07", "dnn/dlmath": "L01 L02 L03 L04 L11 L05 L08 M05 D04", "middleware/": "M07 M08 M04 K03 M09 M06 K01"}
def checks_of(p):
    """The checks whose properties are anchored in the file or its header, the most specific ones first."""
    stem = re.sub(r"^source/|\.\w+$", "", p); ids = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l); n = len(d["anchors"]["files"])
        if any(re.sub(r"^source/|\.\w+$", "", f) == stem for f in d["anchors"]["files"]): ids[d["id"]] = n
    out = sorted(ids, key=lambda i: ids[i])
    for k, v in EXTRA.items():
        if stem.startswith(k) or p.startswith(k): out += [c for c in v.split() if c not in out]
    return out
def muts(line):
    """All one-token changes of a line: (description, new line)."""
    out = []
    code = line.split("//")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "/*", "template", "using", "public", "private", "case", "default")): return out
    instr = [False] * (len(code) + 1); q = False
    for i, ch in enumerate(code):
        if ch == '"' and (i == 0 or code[i-1] != "\\"): q = not q
        instr[i] = q
    def sub(pat, news):
        for m in re.finditer(pat, code):
            if instr[m.start()]: continue
            for n in news:
                out.append(("%s -> %s" % (m.group(0).strip(), n.strip()), line[:m.start()] + n + line[m.end():]))
    sub(r" < ", [" <= ", " > "]); sub(r" <= ", [" < "]); sub(r" > ", [" >= ", " < "]); sub(r" >= ", [" > "])
    sub(r" == ", [" != "]); sub(r" != ", [" == "]); sub(r" && ", [" || "]); sub(r" \|\| ", [" && "])
    sub(r" \+ ", [" - "]); sub(r" - ", [" + "]); sub(r" \* ", [" / ", " + "]); sub(r" / ", [" * "]); sub(r" % ", [" / "])
    sub(r" \+= ", [" -= ", " = "]); sub(r" -= ", [" += "]); sub(r" \*= ", [" = "])
    sub(r"(?<![\w.])0(?![\w.])", ["1"]); sub(r"(?<![\w.])1(?![\w.])", ["0", "2"]); sub(r"(?<![\w.])2(?![\w.])", ["1", "3"])
    sub(r"\btrue\b", ["false"]); sub(r"\bfalse\b", ["true"]); sub(r"!(?=[\w(])", [""]); sub(r"\+\+", ["--"])
    sub(r"\.begin\(\)", [".begin() + 1"]); sub(r"\.first\b", [".second"]); sub(r"\.back\(\)", [".front()"])
    for a, b in (("width", "height"), ("height", "width"), ("min", "max"), ("max", "min"), ("input", "output"), ("output", "input"), ("row", "col"), ("col", "row"), ("_input_size", "_output_size"), ("_output_size", "_input_size")):
        sub(r"\b%s\b" % a, [b])
    sub(r"\bif \((?=.)", ["if (false && ", "if (true || "])
    if re.match(r"^\s+[\w\[\]().>*_:-]+( [-+*/]?= .*|\(.*\));\s*$", code) and not re.match(r"^\s+(return|throw|const|auto|int|Size|Num)\b", code):
        out.append(("statement removed", "\n"))
    if re.match(r"^\s+(continue|break);", code): out.append(("statement removed", "\n"))
    return out
def sh(cmd, cwd=None, env=None, timeout=1500):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, ""
def main():
    a = sys.argv[1:]; n = 20; seed = 1; secs = "6"; files = []; only = None
    while a:
        x = a.pop(0)
        if x == "--n": n = int(a.pop(0))
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--seconds": secs = a.pop(0)
        elif x == "--checks": only = a.pop(0).split(",")
        else: files.append(x)
    rng = random.Random(seed); cand = []
    for f in files:
        p = (f if f.startswith("profile/") else "source/" + f)
        depth = False
        for i, l in enumerate(open(REPO + "/" + p).read().splitlines(True)):
            s = l.strip()
            if s.startswith("/*"): depth = True
            if not depth: cand += [(p, i, d, m) for d, m in muts(l)]
            if "*/" in s: depth = False
    rng.shuffle(cand); done = 0; seen = set(); surv = 0
    print("%d candidate changes" % len(cand), flush=True)
    while cand and done < n:
        p, i, d, new = cand.pop()
        if (p, i) in seen: continue
        m = tempfile.mkdtemp(prefix="mut_", dir="/tmp"); mut = m + "/repo"
        try:
            sh("git clone -q %s %s" % (REPO, mut))
            L = open(mut + "/" + p).read().splitlines(True); old = L[i]; L[i] = new; open(mut + "/" + p, "w").write("".join(L))
            inc = p.replace("source/", "")
            tu = '#include "%s"\nint main(){}\n' % (inc if inc.endswith("hpp") else inc)
            open(m + "/t.cpp", "w").write(tu if not p.startswith("profile") else '#include "%s/%s"\nint main(){}\n' % (mut, p))
            rc, o = sh("clang++ -std=c++17 -fsyntax-only -w -DENABLE_MLPACK=false -I%s/stubs -I%s/source %s/t.cpp" % (V, mut, m))
            if rc: continue
            seen.add((p, i)); done += 1
            checks = only or checks_of(p)
            res = []; killed = None
            env = dict(os.environ, VERIF_REPO=mut, VERIF_SECONDS=secs)
            for c in checks:
                rc, o = sh("python3 check.py %s" % c, V, env)
                if rc == 1: killed = c; break
                if rc == 2 and "BUILD FAILED" in o: killed = "nobuild"; break
                if rc != 0: res.append("%s:%d" % (c, rc))
            if killed is None: surv += 1
            print("%s %s:%d [%s] %s%s" % ("killed by " + killed if killed else "SURVIVED", p, i + 1, d, old.strip()[:110], " " + " ".join(res) if res else ""), flush=True)
        finally: shutil.rmtree(m, ignore_errors=True)
    print("mutants %d survivors %d" % (done, surv))
main()
