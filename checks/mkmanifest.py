#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import CHECKS  # noqa: E402
from notes import NOTES, NOT_APPLICABLE, HOOK_COMMITS  # noqa: E402

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line)["id"] for line in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    if p in CHECKS:
        technique, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/run.py %s quick" % p,
                       "thorough_cmd": "python3 checks/run.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": technique, "level": "model_checking",
                       "level_note": note})
missing = [{"property": p, "reason": NOT_APPLICABLE.get(p, "The check is not built yet.")} for p in props if p not in CHECKS]
m = {"version": 1,
     "setup_cmd": "python3 checks/setup.py",
     "hooks": {"guard": "BB_TRACE", "enable": "the checks compile the sources of src/HybridSolver/main with -DBB_TRACE and a driver "
               "of /verif/harness that defines bb_trace_event and bb_trace_relaxation", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": missing,
     "notes": "TLA+ specifications in specs/, checked with TLC; drivers of the code in harness/; checks/run.py is the entry point."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
