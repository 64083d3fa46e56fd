#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py (every property with jobs is claimed)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import jobs as J
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in J.PROPS: continue
    q = [j for j in J.PROPS[p]["jobs"] if "quick" in j.tiers]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": "bounded symbolic execution of the library's LLVM IR with z3 deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Exhaustive within the bounds of the listed harness configurations (%d in the quick tier); outside: %s." % (len(q), J.PROPS[p]["outside"])})
na = [{"property": p, "reason": r} for p, r in getattr(J, "NOT_APPLICABLE", {}).items()]
na += [{"property": p, "reason": "no check built yet"} for p in ids if p not in J.PROPS and p not in [n["property"] for n in na]]
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine B=../build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
