#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = "contract-based deductive verification (gvc: VCs from go/ssa, z3/cvc5)"
N = "Every obligation of the contracts on the real functions is discharged for all inputs on every run; trusted: gvc, go/ssa, the solvers, the assumed contracts of dependencies listed in the evidence. The oracle run on the real code is a cross-check and searches failing inputs."
# property -> level note (None: not claimed, with reason)
CLAIM = {p: N for p in "C01 C04 C05 C06 C07 C08 C09 C11 C12 C13 C15 C16 C17 C18 C19 C20 C21 C22 C26 C28 C29".split()}
NA = {}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": T, "level": "proof", "level_note": CLAIM[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts not finished yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "One runner, check.py, for every property; see DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
