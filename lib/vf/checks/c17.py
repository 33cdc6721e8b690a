"""Parallel runs respect dependency order and pass values across workers."""
from vf import proj as P
from vf import projgen as G
from vf.checks.c16 import durations

PLAN = {"quick": {"cases": 60, "seconds": 40}, "thorough": {"cases": 4000, "seconds": 900}}
ASPECTS = ("alive", "executed", "once", "values", "deporder", "results")


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(3, 10), dep=rng.choice([0.4, 0.7, 0.9]), maxdeps=rng.choice([1, 2, 4]),
                                   res=rng.choice([0, 0.2])))
        history = []
        for step in range(rng.choice([1, 2, 2])):
            G.change(rng, proj, step, p=0.5, fail=rng.choice([0, 0, 0.2]), files=0)
            for c in proj.cases:
                b = proj.behave[c.key]
                b["pre"] = [rng.choice([0, 0, 0.002, 0.02])]
                b["post"] = [rng.choice([0, 0, 0.002, 0.02, 0.05])]
            if rng.random() < 0.4:
                durations(rng, proj)
            if rng.random() < 0.3:
                for c in rng.sample(proj.cases, rng.randint(1, len(proj.cases))):
                    proj.forget_value(c.name)
                    history.append(["remove stored", c.name])
            flags = rng.choice([[], [], ["-r"], ["-a"], ["-c"]])
            sel = rng.choice([["*"], G.selection(rng, proj)])
            if "-c" in flags and any(n not in proj.values for n in P.choose(proj, sel or ["test", "book"], True)):
                flags = []
            args = [rng.choice(["-p1", "-p2", "-p3", "-p4", "-p8"])] + flags + sel
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history, quiesce=8,
                                    perturb=rng.random() if rng.random() < 0.6 else None)
            pids = {proj.bykey[x["case"]].name: x["pid"] for x in o.events if x["ev"] == "start" and x["case"] in proj.bykey}
            for n in pids:
                for x in proj.by[n].deps:
                    if x in pids:
                        ctx.count("values_in_the_same_worker" if pids[x] == pids[n] else "values_across_workers")
            ctx.distinct("schedules", [proj.spec, [(x["ev"], x["case"]) for x in o.events]])
            ctx.nontrivial([proj.spec, args, proj.behave])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)
