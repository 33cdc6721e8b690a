"""Snapshots change only by acceptance, and then exactly to the run's output."""
import os
import shutil

from vf import proj as P
from vf import projgen as G
from vf.core import tree

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = ("alive", "snapshots", "books")
FLAGS = [[], ["-a"], ["-a"], ["-u"], ["-a", "-u"], ["-c", "-a"], ["-f", "-a"], ["-v"], ["-i"], ["-I"], ["-I", "-u"], ["-s"]]


def prepare(ctx):
    if ctx.shard != 0:
        return
    # known finding: the files of a case whose name is the directory of another case
    d = ctx.newdir()
    try:
        spec = {"units": [{"kind": "func", "fn": "f0", "name": "test/a", "deps": []},
                          {"kind": "func", "fn": "f1", "name": "test/a/b", "deps": []}], "order": ["test/a", "test/a/b"]}
        proj = P.Project(d, spec)
        proj.behave = {"f0": {"lines": ["one"]}, "f1": {"lines": ["two"]}}
        proj.invoke(["-a", "test/a/b"])
        before = proj.snap_text("test/a/b")
        proj.invoke(["-a", "test/a", "skip:test/a/b"])
        if before is not None and proj.snap_text("test/a/b") is None:
            ctx.violation("accepting test/a removed the snapshot of test/a/b", key="nested-case-name")
    finally:
        ctx.drop(d)


def bystanders(rng, proj):
    """files in the books directory that are nobody's snapshot, or lie next to one"""
    for c in rng.sample(proj.cases, min(2, len(proj.cases))):
        for x in (c.name + "2.md", c.name + ".txt", c.name + "x/keep.txt", c.name.rsplit("/", 1)[0] + "/note.md"):
            if rng.random() < 0.5 and not any(P.under(x, y.name) or x == y.name + ".md" for y in proj.cases):
                p = os.path.join(proj.books, x)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("keep " + x)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng))
        history = []
        for step in range(rng.randint(2, 6)):
            G.change(rng, proj, step, p=rng.choice([0.1, 0.5]), fail=rng.choice([0, 0.1, 0.3]), files=0.5)
            if rng.random() < 0.3:
                bystanders(rng, proj)
            if rng.random() < 0.15 and history:
                lose(rng, proj)
            k = rng.random()
            if k < 0.25 and os.path.exists(os.path.join(proj.out, 'metrics.json')):
                args = ["-w"] + rng.choice([[], ["-a"], ["-u"], ["-i"], ["-I"], ["-c", "-a"]]) + G.selection(rng, proj)
                script = answers(rng, args)
                o, e, bad = G.check_review(ctx, proj, args, script, ASPECTS, history)
                ctx.count("reviews")
                go = not bad
            elif k < 0.4:
                go = no_run(ctx, rng, proj, history)
                continue
            else:
                args = list(rng.choice(FLAGS))
                if rng.random() < 0.3 and "-i" not in args and "-f" not in args:
                    args.append(rng.choice(["-p1", "-p2", "-p3"]))
                args += G.selection(rng, proj)
                script = answers(rng, args)
                o, e, go = G.check_step(ctx, proj, args, ASPECTS, script, history=history)
                ctx.count("parallel_runs" if o.par else "serial_runs")
                ctx.nontrivial([proj.spec, proj.behave, args, o.pre])
            ctx.count("accepted", len(e.accepted))
            ctx.count("not_accepted", len(e.run) - len(e.accepted))
            if not go:
                return
            if e.run and not e.accepted:
                ctx.count("steps_without_acceptance")
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)


def answers(rng, args):
    if "-i" in args or "-I" in args:
        # asking stops in a parallel run when its jobs have been started already
        p = 0 if G.parallel(args) else 0.03
        return [rng.choice("aaccc") if rng.random() >= p else "q" for _ in range(60)]
    return []


def lose(rng, proj):
    """the user removes a snapshot"""
    c = rng.choice(proj.cases)
    p = os.path.join(proj.books, c.name)
    if os.path.exists(p + ".md"):
        os.remove(p + ".md")
    if os.path.isdir(p) and rng.random() < 0.5:
        assert p.startswith(proj.root + "/")
        shutil.rmtree(p)


def no_run(ctx, rng, proj, history):
    """commands that look, but do not touch"""
    before = tree(proj.books) if os.path.isdir(proj.books) else {}
    args = [rng.choice(["-l", "--path", "--print", "--garbage", "--config", "--view"])] + G.selection(rng, proj)
    o = proj.invoke(args, env={"BOOKTEST_MD_VIEWER": "true"})
    history.append([args, []])
    after = tree(proj.books) if os.path.isdir(proj.books) else {}
    ctx.count("looking_commands")
    if before != after or o.started:
        from vf.core import diff_trees
        ctx.violation(f"{args} changed the books: {diff_trees(before, after)[:5]}, ran {o.started}",
                      spec=proj.spec, history=history, stdout=o.stdout, stderr=o.stderr)
        return False
    return True
