#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
LATER = {}
CLAIMED = [i for i in ids if i not in NA and i in sys.argv[1].split(",")] if len(sys.argv) > 1 else \
    [i for i in ids if i not in NA]
TECH = "contract-based deductive verification of the compiled MIR (own VC generator; z3 + polynomial identities mod p)"
NOTE = ("Every function of the property is executed symbolically from the MIR rustc produces for /repo's current source and "
        "checked against its contract for all inputs; callees are replaced by their contracts, which are verified in the "
        "same run. Trusted: rustc's MIR, models of num-bigint/std functions, the VC generator, facts of number theory. "
        "Thorough adds bounded replay of the real code against an independent oracle.")
m = {"version": 1,
     "setup_cmd": "cd mirdump && cargo +nightly build --release --offline",
     "checks": [{"property": i, "quick_cmd": f"python3-vt check.py {i} quick",
                 "thorough_cmd": f"python3-vt check.py {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "proof", "level_note": NOTE}
                for i in CLAIMED],
     "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in CLAIMED]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
