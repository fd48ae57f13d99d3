"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from specs import SPECS  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("executions observed only: no claim beyond the cases generated from the seed; counts of what the monitors saw are "
        "in the evidence file")
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/lib/setup.py",
    "checks": [],
    "not_applicable": [],
}
for i in ids:
    if i in SPECS:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 /verif/check.py {i} quick",
            "thorough_cmd": f"python3 /verif/check.py {i} thorough",
            "technique": SPECS[i]["technique"],
            "level": "exploration",
            "level_note": SPECS[i].get("note", NOTE),
            "evidence_file": f"/verif/evidence/{i}.json",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its monitor is still being built"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
