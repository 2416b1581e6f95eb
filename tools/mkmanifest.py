"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp.checks import CHECKS  # noqa: E402

TRACE = ("Traces of the real library, for generated histories, are validated by TLC against the abstract state machine "
         "spec/Metric.tla: every result must be one that the specification admits. ")
CONC = ("Threads call the real library, instrumented so that a scheduler chooses every switch, under many schedules "
        "(orders, all single preemptions up to a limit, random multiple ones) with the race detector; TLC decides with "
        "spec/LinTrace.tla whether each distinct history can be explained by the abstract state machine. ")
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        missing.append({"property": p["id"], "reason": "check under construction"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "technique": (
            "TLA+ specification, TLC validation of concurrent histories of the real library under controlled schedules"
            if p["id"] in ("C16", "C17", "C19", "C24") else
            "TLA+ specification, TLC trace validation of the real library"),
        "level": "model_checking",
        "level_note": (CONC if p["id"] in ("C16", "C17", "C19", "C24") else TRACE) + "Bounded by the generated histories; trusts TLC, its exact-rational override "
        "and the Go harness that records calls and results.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": missing,
     "notes": "TLA+ checked with TLC. See DESIGN.md. No hooks in /repo: the checks build instrumented copies of it."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(missing), "missing")
