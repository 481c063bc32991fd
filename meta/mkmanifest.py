"""Regenerates /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "Every check: run.py <property>; build products, replays and caches live below /verif/build and /verif/replay (git-ignored)."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i, "technique": c["technique"],
            "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
