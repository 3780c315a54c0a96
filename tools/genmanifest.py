"""Writes MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
from registry import PROPS, TECH, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in PROPS:
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 sa/check.py %s quick" % i, "thorough_cmd": "python3 sa/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
na = [{"property": i, "reason": NA[i]} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check dumps the MIR of /repo's current tree with a rustc_private driver (mirdump/) and decides the property by abstract interpretation of it; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
