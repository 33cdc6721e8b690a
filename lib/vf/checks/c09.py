"""Exit status, records and summary tell the true results."""
from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 120, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = ("alive", "records", "results", "exit", "summary", "times")
FLAGS = [[], [], ["-a"], ["-u"], ["-a", "-u"], ["-c"], ["-c", "-a"], ["-f"], ["-c", "-f"], ["-v"], ["-r"], ["-L"]]


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, roots=("test", "test", "book", "other")))
        history = []
        for step in range(rng.randint(2, 5)):
            G.change(rng, proj, step, p=rng.choice([0.1, 0.5]), fail=rng.choice([0, 0.1, 0.4]))
            if rng.random() < 0.15:
                # a slow test
                proj.behave[rng.choice(proj.cases).key]["pre"] = [rng.choice([0.04, 0.1])]
            if rng.random() < 0.2 and history:
                if not review(ctx, rng, proj, history):
                    return
                continue
            if rng.random() < 0.12:
                stopped_early(ctx, rng, proj, step, history)
                return
            args = list(rng.choice(FLAGS))
            if rng.random() < 0.3:
                args = [a for a in args if a != "-f"] + [rng.choice(["-p1", "-p2", "-p3"])]
            args += G.selection(rng, proj)
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            tally(ctx, o, e)
            ctx.nontrivial([proj.spec, proj.behave, args, o.pre])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history, "records": proj.records()})
    finally:
        ctx.drop(d)


def tally(ctx, o, e):
    ctx.count("parallel_runs" if o.par else "serial_runs")
    ctx.count("exit_zero" if o.rc == 0 else "exit_nonzero")
    for r in e.results.values():
        ctx.count("result_" + r)
    ctx.count("records_kept", len(e.records) - len(e.run))
    ctx.count("verbose_runs", "-v" in e.flags)
    ctx.count("times_compared", 0 if e.asked else len(e.run))


def review(ctx, rng, proj, history):
    args = ["-w"] + rng.choice([[], ["-a"], ["-u"], ["-c"], ["-c", "-a"], ["-v"], ["-f"], ["-f", "-a"]])
    answers = ()
    if rng.random() < 0.4:
        # the user goes on for a while and quits, or stays to the end
        args.append(rng.choice(["-i", "-I"]))
        answers = [rng.choice(["c", "c", "a"]) for _ in range(rng.choice([0, 0, 1, 3]))] + rng.choice([["q"] * 40, ["c"] * 40])
        ctx.count("answered_reviews")
    o, e, bad = G.check_review(ctx, proj, args + G.selection(rng, proj), answers, ASPECTS + ("snapshots",), history)
    ctx.count("reviews")
    return not bad


def stopped_early(ctx, rng, proj, step, history):
    """-f with workers: which cases are reached is not determined, what is reported about them is"""
    G.change(rng, proj, step, p=0.7, fail=0.4)
    for c in proj.cases:
        proj.behave[c.key]["pre"] = [rng.choice([0, 0.01, 0.05])]
    args = ["-f", rng.choice(["-p1", "-p2", "-p3"])] + rng.choice([[], ["-a"], ["-c"]]) + ["*"]
    pre = dict(proj.records())
    e = P.expect_run(proj, [a for a in args if a != "-f"])
    o = proj.invoke(args, quiesce=8)
    history.append(args)
    records = proj.records()
    ctx.count("stopped_early", len(set(o.started)) < len(e.todo))
    rows, counts, listed = P.summary(o.stdout)
    new = [r for r in records if r[0] in dict(rows)]
    kept = [r for r in records if r[0] not in dict(rows)]
    bad = [n for n, r in new if r != "OK"]
    bodies = {proj.bykey[k].name for k in o.started}
    raw = {n: e.raw[n] for n, _ in rows if n in e.raw}
    why = None
    if o.hung or o.rc not in (0, 255):
        why = f"the run ended with status {o.rc}: {o.stderr[-400:]}"
    elif len(new) != len(rows) or len(dict(records)) != len(records):
        why = f"the records are {records} after the printed results {rows}"
    elif any(n not in bodies for n, r in rows if not proj.by[n].deps):
        # tests under way at the end may be cut off
        why = f"{bodies} ran, but the printed results are {rows}"
    elif any(pre.get(n) != r for n, r in kept):
        why = f"the records are {records} after {pre} and the printed results {rows}"
    elif any(dict(new)[n] != ("OK" if r == "DIFF" and "-a" in args and dict(new)[n] == "OK" else r) for n, r in rows):
        why = f"the records are {records} after the printed results {rows}"
    elif any(raw[n] != dict(rows)[n] for n in raw if not proj.by[n].deps):
        why = f"the printed results are {rows} instead of {raw}"
    elif counts != (len(bad), len(rows)) or sorted(listed or []) != sorted(bad):
        why = f"the summary counts {counts} and lists {listed} for {new}"
    elif (o.rc == 0) != (not bad):
        why = f"the exit status is {o.rc} for {new}"
    if why:
        ctx.violation(f"{why} (arguments {args})", spec=proj.spec, behaviours=proj.behave, history=history, stdout=o.stdout[-2000:],
                      stderr=o.stderr[-1500:], records=records)
