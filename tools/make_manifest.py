"""Writes MANIFEST.json from the list of properties and props/budget.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "Z01": "A pure function of the partial sums: no schedule, clock, fault or history can change "
           "it, so a simulated execution would only be input generation.",
    "Z02": "Vertical interpolation is a pure function of the fields given; its only "
           "environment-dependent part, writing the file, is N01.",
    "Z03": "Wave decomposition and zonal means are pure array transforms without state, time or "
           "I/O.",
    "Z04": "The difficulty index is a pure function of arrays and thresholds.",
    "Z05": "The significance tests are pure functions of two samples; no event order or "
           "fault takes part.",
    "Z06": "Longitude and unit conversions are pure functions of their arguments.",
}
budget = json.load(open(os.path.join(ROOT, "props", "budget.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA or not os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        continue
    m = budget.get("meta", {}).get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python -B check.py {i}",
        "thorough_cmd": f"/opt/venv/bin/python -B check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: " + m.get("technique", ""),
        "level": m.get("level", "exploration"),
        "level_note": m.get("level_note", "Seeded search; nothing is claimed beyond the "
                            "executions run."),
    })
missing = [i for i in ids if i not in NA and i not in {c["property"] for c in checks}]
if missing:
    print("no check for", missing, file=sys.stderr)
out = {"version": 1, "setup_cmd": "true", "checks": checks,
       "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
       "notes": "One command per property: check.py runs seeded simulations in eight processes, "
                "minimises and replays a failure, and writes the evidence. check.py --replay FILE "
                "repeats a recorded failure. No hooks in the code under test are needed."}
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
