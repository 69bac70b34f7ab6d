#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, levels.json and the checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
info = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t = info.get(i, {})
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i,
                       "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                       "technique": t.get("technique", info["default"]["technique"]),
                       "level": t.get("level", "exploration"),
                       "level_note": t.get("level_note", info["default"]["level_note"])})
    else:
        na.append({"property": i, "reason": info.get("na", {}).get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "SCM_VERIF_HOOKS",
               "enable": "vlib/build.py compiles /repo/src with -DSCM_VERIF_HOOKS=1 into /verif/build",
               "source_commits": info["hook_commits"]},
     "checks": checks, "not_applicable": na, "notes": info["notes"]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
