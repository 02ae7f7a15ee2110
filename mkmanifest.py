#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.py and properties.jsonl"""
import json, os
import jobs
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOT = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.JOBS:
        q = [j for j in jobs.JOBS[i] if j["tier"] == "quick"]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "symbolic execution of rustc's LLVM IR of the real code, decided by SMT (Z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": ("Solver verdict over all values within the bounds of each job (quick: %d, thorough: %d jobs), e.g. %s. "
                           % (len(q), len(jobs.JOBS[i]), "; ".join(j["bound"] for j in q[:3]))) + jobs.OUTSIDE.get(i, "")})
    else:
        na.append({"property": i, "reason": NOT[i]})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
