#!/usr/bin/env python3
"""Write MANIFEST.json from registry.py (claimed properties) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS, NOTES

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TRUST = ("Bounded: TLC decides the design specification exhaustively within its constants and validates every recorded "
         "execution of the real code; executions are the generated ones. Trusts TLC, the Go toolchain and the driver's recording.")
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s" % p, "thorough_cmd": "python3 tools/check.py %s" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": NOTES[p][0], "level": "model_checking",
                 "level_note": NOTES[p][1] + " " + TRUST} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo: drivers use the public API; schedule exploration instruments copies at build time through go build -overlay."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
