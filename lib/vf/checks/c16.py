"""Cases sharing a resource never run at the same time."""
from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 60, "seconds": 40}, "thorough": {"cases": 4000, "seconds": 900}}
ASPECTS = ("alive", "executed", "once", "values", "records")


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        pool = rng.sample(G.RES, rng.randint(1, 4))
        proj = P.Project(d, G.spec(rng, n=rng.randint(3, 10), dep=rng.choice([0, 0, 0.3]), res=rng.choice([0.6, 0.9]),
                                   respool=pool, roots=("test",)))
        G.change(rng, proj, 0, p=1, fail=rng.choice([0, 0.3]), files=0)
        history = []
        for step in range(rng.choice([1, 1, 2])):
            for c in proj.cases:
                b = proj.behave[c.key]
                b["pre"] = [rng.choice([0, 0.005, 0.02, 0.05])]
                b["post"] = [rng.choice([0, 0.002, 0.01])]
            if rng.random() < 0.3:
                durations(rng, proj)
            args = [rng.choice(["-p2", "-p3", "-p4", "-p8"])] + rng.choice([["*"], ["*"], G.selection(rng, proj)])
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history, quiesce=8,
                                    perturb=rng.random() if rng.random() < 0.6 else None)
            why = overlap(ctx, proj, o)
            if why:
                ctx.violation(why, events=o.events, history=history, **G.describe(proj, args, (), o, e))
                return
            ctx.nontrivial([proj.spec, args, proj.behave])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)


def durations(rng, proj):
    """earlier durations decide which case is started first"""
    import os
    recs = proj.records() or [(c.name, "DIFF") for c in proj.cases]
    os.makedirs(proj.out, exist_ok=True)
    with open(os.path.join(proj.out, "cases.txt"), "w") as f:
        for n, r in recs:
            f.write(f"{n}\t{r}\t{rng.choice([0, 1.5, 100.25, 5000])}\n")


def overlap(ctx, proj, o):
    running = {}
    for ev in o.events:
        c = proj.bykey.get(ev["case"])
        if c is None:
            continue
        if ev["ev"] == "start":
            for other in running:
                ctx.count("overlapping_pairs")
                both = set(c.resources) & set(proj.by[other].resources)
                if both:
                    return f"{c.name} started while {other} was running, both need {sorted(map(str, both))}"
            if c.resources:
                for x in proj.cases:
                    if x.name != c.name and set(x.resources) & set(c.resources):
                        ctx.count("conflicting_pairs")
            running[c.name] = ev
        elif ev["ev"] == "end":
            running.pop(c.name, None)
    ctx.distinct("schedules", [proj.spec, [(e["ev"], e["case"]) for e in o.events]])
    return None
