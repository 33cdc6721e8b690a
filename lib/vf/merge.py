"""Merges the shard records into the evidence file and the verdict."""
import importlib
import json
import os
import re
import time


def merge(prop, tier, seed, shards, scratch, begin, rc, verif, known):
    recs, missing = [], []
    for s in range(shards):
        p = os.path.join(scratch, "res", f"shard{s}.json")
        try:
            with open(p) as f:
                recs.append(json.load(f))
        except Exception as e:
            log = os.path.join(scratch, "res", f"shard{s}.log")
            tail = ""
            if os.path.exists(log):
                tail = open(log, errors="replace").read()[-1500:]
            missing.append(f"shard {s}: {e} {tail}")
    meta = load_meta(verif, prop)
    counters, sets, samples, viol, found, incon, errors = {}, {}, [], [], [], [], []
    n_incon = 0
    evaluations = 0
    for s, r in enumerate(recs):
        evaluations += r["evaluations"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        samples.extend(r["samples"][:1])
        viol.extend(r["violations"])
        found.extend(r["findings"])
        incon.extend(r["inconclusive"])
        n_incon += r["inconclusive_count"]
        errors.extend(r["errors"])
        if not r["done"] and not r["errors"]:
            errors.append({"trace": f"shard {s} did not finish"})
    errors.extend({"trace": m} for m in missing)

    known_seen = {}
    for f in found:
        if f["key"] in known:
            known_seen.setdefault(f["key"], f)
        else:
            viol.append(f)

    nontrivial = len(sets.pop("_nontrivial", ()))
    too_little = []
    for name, least in meta.get("require", {}).items():
        have = counters.get(name, len(sets.get(name, ())))
        if have < least:
            too_little.append(f"{name}: {have} < {least}")

    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": nontrivial,
        "rule": meta["rule"],
        "samples": samples[:4],
        "observed": {k: counters[k] for k in sorted(counters)},
        "distinct_observed": {k: len(v) for k, v in sorted(sets.items())},
        "shards": len(recs),
        "inconclusive_cases": n_incon,
        "known_findings_reproduced": sorted(known_seen),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": coverage,
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - begin, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {nontrivial} distinct non-trivial, "
          f"{ev['wall_s']} s; observed " +
          ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    for k in sorted(known_seen):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    if viol:
        d = os.path.join(verif, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for n, v in enumerate(viol[:20]):
            kind = re.sub(r"\d+", "#", v["what"])[:80]
            if kind in seen:
                continue
            seen.add(kind)
            p = os.path.join(d, f"{prop}-{seed}-{v['case']}-{n}.json")
            with open(p, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": v["case"],
                           "rerun": f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} VF_ONLY={v['case']} ./check.sh {prop}",
                           "what": v["what"], "detail": v["detail"]}, f, indent=1, default=repr)
            print(f"  {v['what']}"[:600])
            print(f"VIOLATION property={prop} replay={p}")
            if len(seen) >= 5:
                break
        return 1
    if errors:
        print(f"{prop}: NO VERDICT, harness errors:")
        for e in errors[:3]:
            print(e["trace"])
        return 3
    if rc not in (0,):
        print(f"{prop}: NO VERDICT, the workload was cut off (status {rc})")
        return 3
    if os.environ.get("VF_ONLY"):
        return 0
    if too_little:
        print(f"{prop}: NO VERDICT, the monitors observed too little: " + "; ".join(too_little))
        return 3
    if n_incon > max(2, evaluations * 0.2):
        print(f"{prop}: NO VERDICT, {n_incon} of {evaluations} cases undecided, e.g. {incon[:2]}")
        return 3
    return 0


def load_meta(verif, prop):
    """the static facts about a check (without importing the code under test as root)"""
    path = os.path.join(verif, "lib", "vf", "checks", "meta.json")
    with open(path) as f:
        return json.load(f).get(prop, {"level": "exploration", "rule": "in development"})
