#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, contracts/ and the reasons below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NOTE = {}
NA = {}
exec(open(R + "/tools/notes.py").read())
GEN = ("Every contract of the property is checked against LLVM IR compiled from /repo's current sources: the condition generator executes every path, "
       "summarises every loop by an inductive invariant or closed form and hands each obligation to the term normaliser, z3 and cvc5; unbounded in sizes and values. "
       "Trusts: the generator, clang/opt -O1, the solvers, doubles read as mathematical reals. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(R + "/contracts/%s.py" % i) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % i,
                       "technique": "contract-based deductive verification (SMT-discharged obligations over the compiled code)", "level": "proof",
                       "level_note": GEN + NOTE.get(i, "")})
    else: na.append({"property": i, "reason": NA.get(i, "contracts for this property are not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q vcg contracts check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries only fix: commits. Known findings and repaired defects are listed in known_findings.jsonl."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); print(len(checks), "claimed,", len(na), "not")
