"""Writes /verif/MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = "TLC explores the specification within the stated bounds; conformance of the implementation is shown for the histories run, not for all"
checks, na = [], []
for i in ids:
    if i in props.CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": props.CLAIMED[i], "level": props.LEVEL.get(i, "model_checking"), "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "not yet covered by a check"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
