#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/lib/vf/checks/meta.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta and os.path.exists(f"{V}/lib/vf/checks/{i.lower()}.py"):
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": meta[i].get("technique", "runtime monitoring: reference-model oracle over recorded executions"),
            "level": meta[i]["level"],
            "level_note": meta[i].get("note", "held on the executions observed; no claim beyond them"),
        })
    else:
        na.append({"property": i, "reason": meta.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: all monitors observe the public interface, files and processes. "
                    "Checks copy /repo/booktest into a scratch directory and run it as an unprivileged user."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
