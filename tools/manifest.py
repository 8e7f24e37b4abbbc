#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the plans of the provers."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import kani  # noqa: E402
import verus  # noqa: E402

checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    k, v = kani.PLAN.get(p), verus.PLAN.get(p)
    tools, notes, trust = [], [], []
    if k:
        tools.append("Kani function contracts on the compiled code, all inputs, complete unwinding")
        notes.append(f"Kani discharges {k['n']} contract harnesses over: " + ", ".join(k["f"]) + ".")
        trust += k["trust"]
    if v:
        tools.append("Verus contracts on the source extracted from /repo on every run")
        notes.append("Verus discharges the contracts of: " + ", ".join(v["f"]) + ".")
        trust += [t for n in v["units"] for t in verus.UNIT_TRUST[n]] + v["trust"]
    if not tools:
        tools.append("native evaluation of the contract (bounded stand-in)")
        notes.append("Bounded: the contract is evaluated on the compiled functions for generated inputs; nothing is proved.")
    else:
        notes.append("The same contracts are evaluated natively on generated inputs (not counted as proof); they replay counterexamples and stand in, labelled bounded, on a tree where the proof is out of reach.")
    if trust:
        notes.append("Assumed: " + "; ".join(dict.fromkeys(trust)) + ".")
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "contract-based deductive verification: " + " + ".join(tools),
        "level": "proof" if (k or v) else "exploration",
        "level_note": " ".join(notes),
    })
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [],
    "notes": "Known findings and repairs: known-findings.txt. Design: DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
