#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of analyses and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import analyses
SHAPE = "abstract interpretation of the compiled operations (shape domain over symbolic trees, linear inequalities, loop summaries)"
WIT = "type-level witnesses: units that must be accepted or rejected by g++ and clang++"
TXT = {"shape": SHAPE, "witness": WIT, "effects": "effect analysis over the whole call graph of the compiled interface (unwinding, static stores, loops, global allocation)",
       "odr": "two units including everything must link"}
TECH = {k: "; ".join(TXT[n] for n in dict.fromkeys(n for n, _ in v)) for k, v in analyses.TABLE.items()}
NOTE = {
 "shape": "Decides the property for every tree of the bounded heights with every fill, every position and every throwing point, on the IR of /repo's current headers; alarms only on a definite violation with an integer witness, confirmed without loop summaries. Trusts clang's IR, the analyser, and that relocating an element does not throw.",
 "witness": "Decided by the type checkers of both compilers on the current headers, for the listed instantiations; each rejected unit has an accepted twin.",
 "effects": "Every function reachable from the interface is inspected on every run; calls that may unwind, stores to static objects, loops without constant trip count, calls of global allocation functions. Trusts noexcept declarations of the element and allocator operations.",
}
NA = json.load(open(os.path.join(ROOT, "lib", "not_applicable.json")))
checks = []
for p in sorted(analyses.TABLE):
    kinds = [n for n, _ in analyses.TABLE[p]]
    note = " ".join(analyses.NOTES.get(k) or NOTE.get(k, "") for k in dict.fromkeys(kinds)).strip()
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "make -s -C tool -j8 OUT=../build", "checks": checks,
     "not_applicable": [x for x in NA if x["property"] not in analyses.TABLE]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(m["not_applicable"]), "not applicable")
