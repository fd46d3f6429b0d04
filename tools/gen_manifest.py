#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "symbolic execution of the traced jaxpr of the real code, SMT (z3/cvc5)",
    "C01": "symbolic execution of the real host Python (symbolic dimensions), SMT",
    "C10": "symbolic execution of the traced jaxpr (symbolic coordinates and values) and host Python, SMT",
    "C11": "symbolic execution of the host callback over a CHOLMOD contract stub and of the traced CG loop, SMT",
    "C17": "symbolic execution of the host Python over a CHOLMOD contract stub, SMT",
    "C22": "symbolic execution of the parser on symbolic numeric fields, SMT",
}
NOTE = ("All values within the stated structural bounds (see evidence.coverage.bounds); real arithmetic with NaN/inf flags, "
        "rounding not modelled; user functions uninterpreted; counterexamples replayed on the real code.")
REASON = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i}",
                               evidence_file=f"evidence/{i}.json", technique=TECH.get(i, TECH["default"]), level="other",
                               level_note="Bounded symbolic verification. " + NOTE))
        else:
            na.append(dict(property=i, reason=REASON.get(i, "The check for this property is not built yet.")))
    m = dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
             notes="See DESIGN.md. Findings and repairs are in known_findings.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
