#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, TECHNIQUE, NOTE
HOOK = "929ad58"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], capture_output=True, text=True, check=True).stdout.strip()
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {"guard": "verif", "enable": "-tags verif", "source_commits": [full]},
    "checks": [],
    "not_applicable": [],
}
for p in props:
    if p not in PLAN:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
        continue
    m["checks"].append({
        "property": p,
        "quick_cmd": f"python3 run.py {p}",
        "thorough_cmd": f"python3 run.py {p} --tier thorough",
        "technique": "property-based testing: " + TECHNIQUE[p],
        "level": "exploration",
        "level_note": NOTE.get(p, "generated cases only; every case is executed against the real code, nothing is proved for cases not generated"),
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
