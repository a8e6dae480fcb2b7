#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness, the rest not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
NOTE = ("Bounded: every input value, schedule and operation history within the bounds listed in the evidence is covered by solver verdicts over the "
 "SSA form of the real code, regenerated on every run. Trusted: the interpreter's Go semantics and its models of the standard library "
 "(listed in DESIGN.md; validated on every run by executing sampled paths natively), and z3.")
TECH = "symbolic execution of the real Go code (SSA) with SMT (z3) verdicts per path; native replay of counterexamples"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.isdir(os.path.join(V, "harness", p.lower())):
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} -tier quick", "thorough_cmd": f"bash check.sh {p} -tier thorough",
            "technique": TECH, "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
     "notes": "engine/ is the symbolic executor, harness/ the property harnesses, known-findings.txt the repaired and known defects; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
