#!/usr/bin/env python3
"""judge_seeded.py [ID...]: runs the check of its property against each planted bug in a scratch clone of /repo,
records the outcome in tools/seeded_results.json and rewrites the table in DESIGN.md (--table: only the table)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = V + "/tools/seeded_results.json"
res = json.load(open(R)) if os.path.exists(R) else {}
meta = {b: json.load(open("%s/seeded/%s/meta.json" % (V, b))) for b in sorted(os.listdir(V + "/seeded"))}
if "--table" not in sys.argv:
    for b in sys.argv[1:] or meta:
        d = tempfile.mkdtemp(prefix="judge_", dir="/tmp"); m = d + "/repo"
        try:
            subprocess.run(["git", "clone", "-q", "/repo", m], check=True)
            if subprocess.run(["git", "-C", m, "apply", "%s/seeded/%s/patch.diff" % (V, b)]).returncode: print(b, "does not apply", flush=True); continue
            r = subprocess.run(["python3", V + "/check.py", meta[b]["property"]], env=dict(os.environ, VERIF_REPO=m), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            res[b] = {0: "missed", 1: "caught"}.get(r.returncode, "no answer"); print(b, meta[b]["property"], res[b], flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
        old = json.load(open(R)) if os.path.exists(R) else {}
        old[b] = res[b]; json.dump({k: old[k] for k in sorted(old) if k in meta}, open(R, "w"), indent=0); open(R, "a").write("\n")
rows = ["| %s | %s | %s | %s |" % (b, x["property"], x["what_it_breaks"].replace("|", "/"), res.get(b, "not run")) for b, x in meta.items()]
t = open(V + "/DESIGN.md").read(); a, z = "<!-- planted -->\n", "<!-- /planted -->"
i, j = t.index(a) + len(a), t.index(z)
open(V + "/DESIGN.md", "w").write(t[:i] + "| change | property | what it breaks | its check |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + t[j:])
