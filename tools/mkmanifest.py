#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
na = getattr(checks, "NOT_APPLICABLE", {})
cs = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        cs.append({"property": p, "quick_cmd": "python3 vp.py check %s quick" % p, "thorough_cmd": "python3 vp.py check %s thorough" % p,
                   "technique": "symbolic execution of the LLVM IR of the real code, decided with Z3", "level": "model_checking",
                   "level_note": ("Within the bounds: " + c["bounds"] + " Outside: " + c.get("outside", "") + " Trusted: clang's IR generation, the executor and its term rewriting, Z3, the run-time model of libstdc++ streams and libc (cross-checked against native runs on every run).")})
    elif p not in na: na[p] = "no check has been built for it yet"
json.dump({"version": 1, "setup_cmd": "python3 vp.py setup", "checks": cs,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items()) if k not in checks.CHECKS],
           "notes": "No hooks are needed in /repo: the checks compile its unmodified sources. known_findings.txt lists repaired defects."}, open(V + "/MANIFEST.json", "w"), indent=1)
