#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
SYM = "symbolic execution of the compiled library code over a symbolic point type, every branch decided by z3, each path replayed natively"
KANI = "bounded model checking of the compiled library code with Kani/CBMC (SAT), counterexamples replayed natively"
NOTE = ("Every path of the real code is explored for all point values (any finite type size, or any dense order) within the stated structural bounds "
        "(number of runs, operands, steps; see DESIGN.md and the bounds in the evidence). Trusts rustc, std, z3 and the explorer; "
        "nothing is claimed beyond the bounds.")
KN = {"C15": "All values of the twelve types, loop-free code, decided by CBMC/CaDiCaL. Trusts rustc, Kani, CBMC.",
      "C21": "Every UTF-8 text up to 8 or 6 bytes (quick; 10 and 7 as time permits) or 13 and 11 bytes (thorough), for two representative point types, loops fully unrolled with unwinding assertions. Longer texts: symbolic execution (z3) over every sequence of 5 pieces and every well-formed text with two pieces changed, point values symbolic. Trusts rustc, Kani, CBMC, z3; other long texts are not covered."}
checks = []
for i in ids:
    k = i in KN
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       technique=KANI + "; " + SYM if i == "C21" else KANI if k else SYM, level="model_checking", level_note=KN.get(i, NOTE)))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the harness crates use the public API only. fix: commits are listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
