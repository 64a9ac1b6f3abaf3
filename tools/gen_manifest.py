#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": "exploration",
            "level_note": c.get("level_note", "generated-input search over the real code under sanitizers; no exhaustive coverage is claimed")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "clang++ --version && python3 --version",
     "hooks": {"guard": "EDGELEARNING_VERIF", "enable": "no hook is needed: the harnesses compile /repo/source unchanged", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py builds one harness per property from /repo's working tree (see DESIGN.md); config.py is the table of checks."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
