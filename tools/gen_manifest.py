#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
CLAIMED = " ".join("C%02d" % i for i in range(1, 24)).split()
SUM = "abstract interpretation of MIR to closed-form function summaries, compared with the required meaning"
TECH = {
 "C19": "effect analysis over the resolved MIR call graph (denied calls, statics, interior mutability, pointer casts), plus comparison of function summaries under two hash-table orders",
 "C11": SUM + "; visibility and signature rules over the type-checked crate",
 "C15": SUM + "; the native solver and the lock are a protocol (typestate) in the environment",
 "C23": SUM + "; the native solver is a protocol in the environment",
}
NOTE = "Sound up to the standard-library models, the loop solver and exact (unrounded) arithmetic on values; the comparison of closed forms is made on a fixed finite family of matrix structures, so a deviation that no structure of the family exhibits is not seen. Obligations whose summary contains an unsolved loop are listed as undecided in the evidence and never alarm."
GRAPH = "The traversal loops have no closed form: the analysis derives their one-step transition for all inputs and takes its least fixpoint on each graph of a finite family (every graph of up to 2 nodes, every loop-free one of 3, and selected ones of up to 6), so a deviation that no graph of the family shows is not seen. Sound up to the standard-library models. An unsolved part is listed as undecided and never alarms."
NOTES = {"C13": GRAPH, "C14": GRAPH, "C22": GRAPH,
 "C19": "A denylist of ambient standard-library and crate calls: an effect reached only through an external function not listed is not seen. Hash-order independence is judged on a finite family of dictionary matrices.",
 "C15": "The solver is represented by its documented protocol (reverse communication, required buffer extents, status); the crate's code between the calls is summarised and judged on a finite family of problem sizes and conversations. The native code itself is trusted."}
NOTES["C23"] = NOTES["C15"]
NA = {
 "N01": "depends on the numerical convergence of the native ARPACK solver, whose source is not in the repository and whose result no static argument here bounds",
 "N03": "rounding error depends on the magnitudes of run-time values; the analysis treats values as exact",
 "N04": "run time and memory are not visible in a function's meaning; no static cost bound is attempted",
}
ALLP = ["C%02d" % i for i in range(1, 24)]
PENDING = "the analysis for this property is not finished"
def main():
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    d = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for p in ALLP:
        if p in CLAIMED:
            d["checks"].append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "./check.sh %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                "technique": TECH.get(p, SUM), "level": "other", "level_note": NOTES.get(p, NOTE)})
        else: d["not_applicable"].append({"property": p, "reason": PENDING})
    for p, r in NA.items(): d["not_applicable"].append({"property": p, "reason": r})
    d["notes"] = "No hooks in /repo. Known and fixed defects: known-findings.json. Design: DESIGN.md."
    json.dump(d, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
main()
