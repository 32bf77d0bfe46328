#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl (authoring tool, not used by the checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(checks, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine B=/verif/build/engine", "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p)
    if c is None:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not claimed yet: its harness is still being built")})
        continue
    b = c["bounds"]
    m["checks"].append({
        "property": p,
        "quick_cmd": f"python3 run.py {p} --tier quick",
        "thorough_cmd": f"python3 run.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "bounded symbolic execution of the library's LLVM bitcode with SMT (Z3, cvc5 fallback), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "All values within the bounds are decided by the solver on the bitcode compiled from /repo. Bounds (quick): "
            + b["quick"] + ". Trusted: the executor and SMT solver, clang's IR"
            + (("; " + "; ".join(c.get("assumptions", []))) if c.get("assumptions") else "") + ".",
    })
m["notes"] = "run.py compiles /repo/src to bitcode on every run; see DESIGN.md."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
