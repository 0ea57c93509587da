#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/plan.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import plan  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl"))]
checks = []
for pid in ids:
    s = plan.CHECKS.get(pid)
    if not s:
        continue
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 check.py {pid} --tier quick",
            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
            "technique": s.get("technique", "runtime monitoring of the real code under randomized workloads"),
            "level": s["level"],
            "level_note": s.get(
                "note",
                "held on the executions observed: " + s["rule"] + ". Trusts CPython, asyncio and the monitors."
                + (" Assumes: " + "; ".join(s["assumptions"]) + "." if s["assumptions"] else ""),
            ),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3 lib/build.py",
    "hooks": {
        "guard": "EZA_VERIF",
        "enable": "no hook was needed: every monitor observes the public interface, so /repo is built as it is",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [
        {"property": p, "reason": plan.NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in plan.CHECKS
    ],
    "notes": "See DESIGN.md. KNOWN_FINDINGS.txt lists recorded and repaired defects.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(m["not_applicable"]), "not claimed")
