"""Files of a test are exactly those of its latest run."""
import hashlib
import os
import re

from vf import proj as P
from vf import projgen as G
from vf.core import tree, diff_trees

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = ("alive", "snapshots", "results")
NAMES = ["a.txt", "b.csv", "img.png", "data", "ä b.png", "x.md", "cases.txt", "x.tmp", ".hidden", "plot.tar.gz"]


def behaviour(rng, c, step):
    b = {"lines": [f"# {c.key}", f"version {rng.randrange(2)}"], "look": True}
    if rng.random() < 0.25:
        b["end"] = rng.choice(P.FAILS)
    names = rng.sample(NAMES, rng.randint(0, 5))
    nf = rng.randint(0, len(names))
    if nf:
        b["files"] = {n: text(rng) for n in names[:nf]}
    pics, files, lines = [], dict(b.get("files", {})), []
    base = c.name.rsplit("/", 1)[-1]
    for n in names[nf:]:
        x = text(rng)
        postfix = rng.choice([None, "", ".png", ".tar.gz"])
        alt = rng.choice([None, "plot", "A plot: x"])
        final = n if postfix is None else hashlib.sha1(x.encode()).hexdigest() + postfix
        files[final] = x
        pics.append([n, x, postfix, alt])
        lines.append(f"![{os.path.splitext(final)[0] if alt is None else alt}]({base}/{final})")
    if pics:
        b["pics"], b["pic_lines"] = pics, lines
    b["all_files"] = files
    if rng.random() < 0.5:
        b["tmp"] = {n: text(rng) for n in rng.sample(NAMES, rng.randint(1, 3))}
    if rng.random() < 0.2:
        b["tmpdirs"] = {"work": "w"}
    return b


def text(rng):
    return rng.choice(["", "x", "a\nb\n", "same", f"{rng.randrange(10**6)}\n", "long " * 3000, "é" * 2100, "z" * 4096,
                       "y" * rng.choice([9000, 70000, 140000]) + rng.choice("ab")])


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(1, 4), dep=0, res=0))
        if rng.random() < 0.2:
            # the books are kept elsewhere
            os.makedirs(os.path.join(proj.dir, "kept", "books"))
            os.symlink(os.path.join("kept", "books"), proj.books)
            ctx.count("linked_books")
        history = []
        for step in range(rng.randint(2, 6)):
            for c in proj.cases:
                if c.key not in proj.behave or rng.random() < 0.6:
                    proj.behave[c.key] = behaviour(rng, c, step)
            if os.path.exists(os.path.join(proj.out, "metrics.json")) and rng.random() < 0.25:
                args = ["-w", rng.choice(["-a", "-u", "-I"])] + G.selection(rng, proj, p_all=0.6)
                o, e, bad = G.check_review(ctx, proj, args, [rng.choice("aac") for _ in range(9)] + ["c"] * 20, ASPECTS, history)
                go = not bad
                ctx.count("reviews")
                proj.fresh = set()
            else:
                args = rng.choice([[], ["-a"], ["-a"], ["-u"], ["-a", "-u"], ["-i"]]) + G.selection(rng, proj, p_all=0.6)
                if rng.random() < 0.25 and "-i" not in args:
                    args = [rng.choice(["-p1", "-p2"])] + args
                o, e, go = G.check_step(ctx, proj, args, ASPECTS, [rng.choice("ac") for _ in range(9)] + ["c"] * 20, history=history)
                why = files(ctx, proj, o, e) if go else None
                if why:
                    ctx.violation(f"{why} (arguments {args})", history=history, **G.describe(proj, args, (), o, e))
                    return
            ctx.count("accepted", len(e.accepted))
            ctx.nontrivial([proj.spec, proj.behave, args, o.pre])
            if not go:
                return
        ctx.sample({"case": i, "behaviours": {k: {x: y for x, y in v.items() if x in ("pic_lines", "end")}
                                              for k, v in proj.behave.items()}, "history": history})
    finally:
        ctx.drop(d)


def files(ctx, proj, o, e):
    for ev in o.events:
        if ev["ev"] == "start" and ev["dirs"] != [[], []]:
            return f"{ev['case']} started with the files {ev['dirs']}"
        if ev["ev"] == "file" and not ev["exists"]:
            return f"{ev['case']}: {ev['file']} does not exist"
    for n in e.bodies:
        b = proj.behave[proj.by[n].key]
        want = {k: v.encode() for k, v in b["all_files"].items()}
        accepted = n in e.accepted
        base = os.path.join(proj.books if accepted else proj.out, n)
        got = tree(base) if os.path.isdir(base) else {}
        if got != want:
            return f"the files of {n} are not the ones of its last run: {diff_trees(want, got)[:4]}"
        if accepted and os.path.exists(os.path.join(proj.out, n)):
            return f"the output directory of {n} is still there after acceptance"
        tmp = {k: v.encode() for k, v in b.get("tmp", {}).items()}
        for k, v in b.get("tmpdirs", {}).items():
            tmp[k] = None
            tmp[k + "/x"] = v.encode()
        base_tmp = os.path.join(proj.out, n + ".tmp")
        got = tree(base_tmp) if os.path.isdir(base_tmp) else {}
        if got != tmp:
            return f"the temporary files of {n} are not the ones of its last run: {diff_trees(tmp, got)[:4]}"
        md = base + ".md"
        for link in re.findall(r"\]\((.*)\)", P.slurp(md)):
            if not os.path.exists(os.path.join(os.path.dirname(md), link)):
                return f"the link {link} in {md} of {n} does not resolve"
            ctx.count("links")
        ctx.count("files", len(want))
        ctx.count("temporary_files", len(tmp))
        ctx.count("result_" + e.results[n])
    return None
