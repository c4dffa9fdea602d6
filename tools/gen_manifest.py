#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed when the checker registers it."""
import json, os, subprocess
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
exec(open(os.path.join(base, "tools", "manifest_data.py")).read())
subprocess.check_call(["bash", os.path.join(base, "tools", "setup.sh")])
claimed = subprocess.check_output([os.path.join(base, "bin", "secscheck"), "-list"], text=True).split()
ids = [json.loads(l)["id"] for l in open(os.path.join(base, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in claimed:
        t, note = CLAIM[i]
        checks.append({"property": i, "quick_cmd": f"bash tools/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash tools/check.sh {i}",
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "the analysis for this property is not built yet")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: tools/check.sh builds checker/ and runs it on the type-checked SSA form of /repo's current sources."},
          open(os.path.join(base, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
