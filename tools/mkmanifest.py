"""Rewrites MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = check.vlib.VERIF
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC exhaustively checks the bounded specification and its transitions are replayed on the real code; seeded histories run on the real code in "
        "every backend and thread count must be behaviours of the specification. Bounded and sampled inputs, exact integer-scaled values; "
        "trusts the drivers in harness/, TLC, the compiler, OpenBLAS/LAPACKE and libgomp.")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick", "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": "TLA+ specification checked with TLC, trace validation and transition replay against the real code",
                 "level": "model_checking", "level_note": NOTE} for p in props if p in check.CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in check.CHECKS],
     "notes": "TLA+ with TLC. No hooks in /repo: the drivers use lalib's public API only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
