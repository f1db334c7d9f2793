#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = "model checking: bounded exhaustive explicit-state exploration of the real code against a reference model"
NOTE = {
    "C": "Every member of the stated finite spaces is run on the real library and compared step by step with a reference model; nothing is sampled. ",
    "R": "Every small complex / matrix in the stated spaces is reduced by the real code and compared with ranks computed independently. ",
    "V": "Every small distance matrix in the stated spaces is run through the real Rips code (or binary) and compared with the combinatorial definition. ",
    "G": "Every small weighted digraph in the stated spaces is run through the real code (Python functions for G03-G05) and compared with path chains by definition. ",
}
TAIL = "Trusted: the reference models in /verif/harness; sizes beyond the bounds are covered only by enumerated structured families."
TECHNIQUE = {
    "C13": "model checking: bounded exhaustive exploration of the real code, every execution in the Miri interpreter, which stops at the first undefined operation",
    "C14": "model checking: stateless exploration of all thread interleavings of the real code up to a preemption bound, under a controlled scheduler",
}
SPECIAL = {
    "C13": "Every member of the stated finite spaces is executed by the Miri interpreter (memory accesses, values, aliasing, data races); nothing is sampled. Trusted: Miri's model of undefined behaviour. ",
    "C14": "Every schedule with the stated number of preemptions is run on the real library; scheduling points are all atomic operations and accesses to static memory (put there by the compiler), lock waits, the calls into the caller's trait implementations and the steps between reads. ",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": TECHNIQUE.get(i, TECH),
        "level": "model_checking",
        "level_note": SPECIAL.get(i, NOTE[i[0]]) + TAIL,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: every check uses public interfaces only. See DESIGN.md for bounds, oracles and findings (known-findings.txt).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
