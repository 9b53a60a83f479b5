#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real C++ (LLVM IR, function by function, z3), failed obligations replayed on the sanitized build"
NOTE = ("Proof: all obligations of the contracts on /repo's current source are discharged for all inputs and iterations. "
        "Assumes the contracts of the C++ standard library (containers, streams, strings; opaque doubles and strings), clang's translation, and enough memory; ")
NOTES = {
 "C01": "writer and reader contracts of every section against one grammar of the file's content, composed per section in DESIGN.md.",
 "C02": "as C01 for text; a double printed with 17 digits reads back as itself (assumed of the library).",
}
claimed = ["C%02d" % i for i in range(1, 19)]
import sys
sys.path[:0] = [H + "/contracts"]
if len(sys.argv) > 1: claimed = sys.argv[1:]
checks = [{"property": c, "quick_cmd": "python3-vt -O check.py %s" % c, "thorough_cmd": "VERIF_TIER=thorough python3-vt -O check.py %s" % c, "technique": TECH, "level": "proof", "level_note": NOTE + NOTES.get(c, "see DESIGN.md for the contracts and what is assumed.")} for c in claimed]
na = [{"property": "C19", "reason": "the nanobind headers and the Python extension build are not available offline, and no deductive verifier here covers the nanobind meta-programmed bindings"}]
for i in range(1, 19):
    c = "C%02d" % i
    if c not in claimed: na.append({"property": c, "reason": "contracts under construction"})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && clang++-18 --version >/dev/null && mkdir -p evidence", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the machinery reads the sources as they are."}, open(H + "/MANIFEST.json", "w"), indent=1)
