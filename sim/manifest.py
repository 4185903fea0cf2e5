#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and catalog.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS, NOT_APPLICABLE, SOURCE_COMMITS  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl")) if line.strip()]
m = {"version": 1, "setup_cmd": "python3 sim/check.py setup",
     "hooks": {"guard": "SLANG_SIMULATION",
               "enable": "sim/build.py compiles /repo with -DSLANG_SIMULATION; the seams are the libc calls the programs "
                         "make, so no source in /repo has to test it",
               "source_commits": SOURCE_COMMITS},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        cmd = "python3 sim/check.py run " + i
        m["checks"].append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection", "level": PROPS[i]["level"],
                            "level_note": PROPS[i]["note"]})
    elif i in NOT_APPLICABLE:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
m["notes"] = ("check.py replay FILE repeats a recorded violation; check.py determinism ID N compares event logs of N seeds "
              "in two worker arrangements; known_findings.json lists recorded and repaired defects")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
