"""Continue reruns exactly what is not OK, forget stages again, fail-fast stops."""
from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = ("alive", "executed", "records", "exit")


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, dep=rng.choice([0, 0.4])))
        history = []
        for step in range(rng.randint(3, 7)):
            G.change(rng, proj, step, p=rng.choice([0.1, 0.4]), fail=rng.choice([0, 0.2, 0.4]), files=0)
            k = rng.random()
            if history and k < 0.2:
                if not forget(ctx, rng, proj, history):
                    return
                continue
            if history and k < 0.3:
                args = ["-w"] + rng.choice([["-a"], ["-a", "-c"], ["-c"], ["-f"]]) + G.selection(rng, proj)
                o, e, bad = G.check_review(ctx, proj, args, (), ASPECTS, history)
                if bad:
                    return
                continue
            args = list(rng.choice([[], ["-a"], ["-c"], ["-c"], ["-c", "-a"], ["-f"], ["-c", "-f"], ["-a", "-f"]]))
            if rng.random() < 0.25 and "-f" not in args:
                args.append(rng.choice(["-p1", "-p2", "-p3"]))
            args += G.selection(rng, proj, p_all=0.5)
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            ctx.nontrivial([proj.spec, proj.behave, args, o.pre])
            if "-c" in args:
                ctx.count("continued_runs")
                ctx.count("skipped_as_ok", len(e.chosen) - len(e.todo))
            if "-f" in args and e.stopped:
                ctx.count("stopped_early")
                ctx.count("cases_not_reached", len(e.todo) - len(e.run))
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)


def forget(ctx, rng, proj, history):
    sel = G.selection(rng, proj)
    pre = proj.records()
    snaps = proj.snapshots()
    chosen = P.choose(proj, sel or ["test", "book"], False)
    o = proj.invoke(["--forget"] + sel)
    history.append([["--forget"] + sel, []])
    ctx.count("forgets")
    want = [r for r in pre if r[0] not in chosen]
    got = proj.records()
    if got != want or o.rc != 0 or o.started or proj.snapshots() != snaps:
        ctx.violation(f"--forget {sel} left {got} instead of {want} (status {o.rc}), ran {o.started}",
                      spec=proj.spec, history=history, before=pre, stdout=o.stdout, stderr=o.stderr)
        return False
    return True
