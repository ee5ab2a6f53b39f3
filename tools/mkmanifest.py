"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                   "technique": registry.TECHNIQUE[p], "level": "model_checking", "level_note": registry.NOTE[p]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in registry.CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
