#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and worlds.CHECKS."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
from worlds import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PURE = "a pure function of its inputs: no schedule, clock, I/O, failure point or history for it to depend on (the parts of it that do depend on history, memory layout or faults are C01, C03, C11); a simulation would only be input fuzzing under another name"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + c.get("how", "seeded search over schedules and fault sequences of the real code"), "level": "exploration",
                       "level_note": c.get("note", "Seeded sampling of schedules, fault sequences and histories over the real library code; every alarm is replayed twice in fresh processes before it is reported. Trusts the simulator runtime (sim/rt.cpp), the compiler's instrumentation and the reference runs; memory accesses inside precompiled libc/libstdc++ code are not seen.")})
    else: na.append({"property": i, "reason": CHECKS_NA.get(i, PURE) if "CHECKS_NA" in globals() else PURE})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks were added to /repo: the library is header-only, so all seams (memory accesses, atomics, locks, allocation, static initialisation, locale, streams, XML parser, objective functions) are taken at compile and link time by the simulator in sim/. known-findings.txt lists repaired defects."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
