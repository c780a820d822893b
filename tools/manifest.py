#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and properties.jsonl."""
import json, os
from table import CHECKS, NOT_APPLICABLE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none needed: the seams are compiler instrumentation (-Zsanitizer=thread entry points) and interposed libc calls, plus the public traits",
              "enable": "tools/build.sh compiles /repo's crates with the instrumentation flags; /repo's sources carry no hooks", "source_commits": []},
    "checks": [],
    "not_applicable": [],
}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
            "technique": "deterministic simulation: seeded scheduler, simulated clock and fault injection over the real code, history oracles",
            "level": c.get("level", "exploration"),
            "level_note": c["note"] + " Sampled schedules and faults, sequentially consistent memory; trusts the simulator runtime in sim/rt and the oracle.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check yet.")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
