"""Exactly the selected cases run."""
import os

from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 130, "seconds": 40}, "thorough": {"cases": 8000, "seconds": 900}}
ASPECTS = ("alive", "executed", "once")


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(3, 10), dep=rng.choice([0, 0.3, 0.6]),
                                   roots=("test", "test", "book", "test2", "other")))
        G.change(rng, proj, 0, p=1, fail=0.1, files=0)
        history = []
        for step in range(rng.randint(2, 6)):
            G.change(rng, proj, step, p=0.2, fail=0.1, files=0)
            if rng.random() < 0.2:
                c = rng.choice(proj.cases)
                proj.forget_value(c.name)
                history.append(["remove stored", c.name])
            sel = G.selection(rng, proj, p_all=0.1, p_default=0.15)
            if rng.random() < 0.45:
                if not listing(ctx, rng, proj, sel, history):
                    return
                continue
            args = rng.choice([[], [], ["-a"], ["-r"], ["-v"]]) + sel
            if rng.random() < 0.2:
                args = [rng.choice(["-p2", "-p3"])] + args
            if "-c" in args and stuck(proj, args):
                args.remove("-c")
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            ctx.count("runs")
            ctx.count("cases_left_out", len(proj.cases) - len(e.run))
            flags, s = P.split_args(args)
            ctx.count("unselected_dependencies_run", sum(not P.is_selected(n, s) for n in e.run))
            ctx.nontrivial([proj.spec, args, sorted(proj.stored())])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)


def stuck(proj, args):
    flags, sel = P.split_args(args)
    return any(n not in proj.values for n in P.choose(proj, sel, "-r" in flags))


def listing(ctx, rng, proj, sel, history):
    flags = rng.choice([[], ["-c"], ["-r"]])
    chosen = P.choose(proj, sel or ["test", "book"], "-r" in flags)
    old = dict(proj.records())
    todo = [n for n in chosen if not ("-c" in flags and old.get(n) == "OK")]
    cmd = rng.choice(["-l", "--path", "--print", "-w"])
    o = proj.invoke([cmd] + flags + sel) if cmd != "-w" or os.path.exists(os.path.join(proj.out, "metrics.json")) else None
    if o is None:
        return True
    history.append([[cmd] + flags + sel, []])
    ctx.count("listings")
    if cmd == "-l":
        got = [x[2:] for x in o.stdout.split("\n")[:-1]]
        want = todo
    elif cmd == "--path":
        got = o.stdout.split("\n")[:-1]
        want = [f"books/{n}.md" for n in todo]
        got = [os.path.normpath(x) for x in got]
    elif cmd == "--print":
        got = o.stdout
        want = "".join(proj.snap_text(n) or "" for n in todo)
    else:
        got = [r[0] for r in P.summary(o.stdout)[0]]
        want = [n for n, r in old.items() if n in chosen and not ("-c" in flags and r == "OK")]
    if got != want or o.started:
        ctx.violation(f"{cmd} {flags} {sel} gave {got} instead of {want}, ran {o.started}",
                      spec=proj.spec, history=history, stdout=o.stdout, stderr=o.stderr, values=proj.values,
                      records=proj.records())
        return False
    return True
