#!/usr/bin/env python3
"""Writes DESIGN.md: design.md (prose) + one section per property + seeds + findings."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/lib/vf/checks/meta.json"))
design = json.load(open(V + "/tools/design.json")) if os.path.exists(V + "/tools/design.json") else {}
out = [open(V + "/tools/design_head.md").read()]
out.append("\n## Per property\n")
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    src = open(f"{V}/lib/vf/checks/{i.lower()}.py").read()
    plan = re.search(r"PLAN = (\{.*?\}\})", src, re.S)
    plan = eval(plan.group(1)) if plan else {}
    m = meta[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"- *Generated and monitored*: {m.get('rule', '')}.")
    for k in ("oracle", "reach", "bounds"):
        if design.get(i, {}).get(k):
            out.append(f"- *{k.capitalize()}*: {design[i][k]}")
    if plan:
        q, t = plan["quick"], plan["thorough"]
        out.append(f"- *Cost*: quick {q['seconds']} s (at most {q['cases']} cases per shard, 8 shards), thorough {t['seconds']} s; "
                   "a run that observed less than " + ", ".join(f"{v} {k}" for k, v in m.get("require", {}).items()) + " gives no verdict.")
    if m.get("note"):
        out.append(f"- *Limits*: {m['note']}")
    out.append("")
out.append("## Planted bugs (seeded/)\n")
out.append("Each is caught by the check of its property at seed 1 (`tools/runseeds.sh`) unless noted.\n")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    note = design.get("seeds", {}).get(s)
    out.append(f"- `{s}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}." + (f" **{note}**" if note else ""))
out.append("\n## Defects found\n")
out.append("Repaired in /repo (`fix:` commits) or listed in known_findings.txt, which the checks read:\n")
for l in open(V + "/known_findings.txt"):
    l = l.strip()
    if l.startswith(("known:", "fixed:")):
        out.append("- " + l)
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print("DESIGN.md", sum(len(x) for x in out), "characters")
