#!/usr/bin/env python3
# Regenerates MANIFEST.json from the checks that exist.
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("The TLA+ specification is explored exhaustively within the stated bounds and its invariants checked; every explored history "
        "and seeded random sessions are performed on the real library and what was recorded is checked by TLC against the specification. "
        "Beyond the bounds the assurance is that of sampling. Trusts TLC and the recording harness.")
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "technique": props.TECHNIQUE.get(i, "TLA+ specification: TLC exploration, replay of explored histories on the code, trace validation by TLC"),
                 "level": "model_checking", "level_note": props.NOTES.get(i, "") + NOTE} for i in ids if i in props.CHECKS],
     "not_applicable": [{"property": i, "reason": props.NA.get(i, "the check is not built yet")} for i in ids if i not in props.CHECKS],
     "notes": "No hooks in /repo are needed: everything is driven and observed through the public interface."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
