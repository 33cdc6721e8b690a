"""Dependencies run before their dependents, once per run."""
from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 8000, "seconds": 900}}
ASPECTS = ("alive", "deporder", "once", "executed", "order")


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        wide = rng.random() < 0.03
        proj = P.Project(d, G.layers(rng) if wide else
                         G.spec(rng, n=rng.randint(2, 10), dep=rng.choice([0.4, 0.6, 0.85]), maxdeps=rng.choice([1, 2, 4])))
        history = []
        for step in range(rng.randint(2, 5)):
            G.change(rng, proj, step, p=0.2, fail=rng.choice([0, 0.15]), files=0)
            if rng.random() < 0.3:
                for c in rng.sample(proj.cases, rng.randint(1, len(proj.cases))):
                    if dict(proj.records()).get(c.name) != "OK" or rng.random() < 0.5:
                        proj.forget_value(c.name)
                        history.append(["remove stored", c.name])
            args = rng.choice([[], [], ["-a"], ["-r"], ["-c"], ["-c", "-r"]])
            sel = G.selection(rng, proj, p_all=0.3)
            args = list(args) + sel
            if "-c" in args:
                # a case recorded OK is not run by -c, also if its result has been removed
                flags, s = P.split_args(args)
                if any(n not in proj.values for n in P.choose(proj, s, True)):
                    args.remove("-c")
            if rng.random() < 0.25:
                args = [rng.choice(["-p1", "-p2", "-p4"])] + args
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            ctx.count("runs")
            ctx.count("layered_runs", wide)
            ctx.count("dependency_edges_in_runs", sum(len([x for x in proj.by[n].deps if x in e.run]) for n in e.run))
            ctx.count("edges_against_declaration",
                      sum(1 for n in e.run for x in proj.by[n].deps
                          if x in e.run and proj.spec["order"].index(x) > proj.spec["order"].index(n)))
            ctx.nontrivial([proj.spec, args, sorted(proj.stored())])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)
