"""Accept a run, run again: OK, exit 0, snapshot as it was."""
import os

from vf import stream as S
from vf import streamgen as G
from vf.core import tree, diff_trees

PLAN = {"quick": {"cases": 450, "seconds": 60}, "thorough": {"cases": 40000, "seconds": 900}}


def prepare(ctx):
    if ctx.shard != 0:
        return
    # known finding: ignored text joined to other text within one word
    d = ctx.newdir()
    prog = [["t", "v"], ["i", "3"], ["tln"]]
    ctx.case = "joined-ignored-text"
    S.run(d, "x", prog, ["-a"])
    o = S.run(d, "x", prog, [])
    if o.rv != 0:
        ctx.violation("the same output differs from its own snapshot: t('v').i('3')", key="joined-ignored-text")
    ctx.drop(d)
    # known finding: after a set, lines that look like its items
    d = ctx.newdir()
    for key, after in (("set-then-same-prefix", [["tln", " * b"]]), ("set-then-same-prefix", [["tset", ["b"], " * "]])):
        ctx.case = key
        prog = [["tset", ["a"], " * "]] + after
        S.run(d, "x", prog, ["-a"])
        o = S.run(d, "x", prog, [])
        if o.rv != 0:
            ctx.violation(f"the same output differs from its own snapshot: a set followed by {after}", key=key)
    ctx.drop(d)


def case(ctx, rng, i):
    d = ctx.newdir()
    name = G.name(rng)
    prog = G.program(rng)
    root = os.path.join(d, "books")
    is_async = rng.random() < 0.2
    detail = dict(program=prog, name=name, is_async=is_async)

    def bad(what, o):
        ctx.violation(what, stdout=o.stdout[-1500:], report=(o.rep or "")[-3000:], snapshot=o.snap, **detail)

    # something else may have been accepted before
    earlier = rng.random() < 0.3
    if earlier:
        o = S.run(root, name, G.program(rng), ["-a"])
        ctx.count("earlier_snapshots")
    o = S.run(root, name, prog, ["-a"], is_async)
    if o.crash or o.rv != 0 or o.result != "OK":
        return bad(f"accepting with -a ended {o.crash or (o.rv, o.result)}", o)
    skip = (".out", "index.md")
    before = tree(root, skip)
    ctx.count("accepted")
    modes = [[], [], ["-v"], ["-f"], ["-u"], ["-a"], ["-c"], ["-s"]]
    for k in range(3):
        args = [] if k == 0 else rng.choice(modes)
        o = S.run(root, name, prog, args, is_async)
        ctx.count("reruns")
        ctx.count("lines", len(S.rows_of(o.rep)))
        if o.crash:
            return bad(f"run {k + 2} of the accepted output {o.crash}", o)
        if o.rv != 0 or o.result != "OK":
            return bad(f"run {k + 2} ({args}) of the accepted output ended {o.result} with status {o.rv}", o)
        after = tree(root, skip)
        if after != before and "-u" not in args and not any(x[0] in ("timage",) for x in prog):
            return bad(f"the accepted snapshot changed: {diff_trees(before, after)}", o)
        if "-u" in args and not earlier and not any(x[0] in ("imsln", "ifloatln") for x in prog) and after != before:
            return bad(f"updating the same output changed the snapshot: {diff_trees(before, after)}", o)
        if "-u" in args:
            before = after
    if len(prog) > 1:
        ctx.nontrivial(prog)
    for op in prog:
        ctx.distinct("kinds_of_calls", op[0])
    ctx.sample({"case": i, "name": name, "program": prog})
    ctx.drop(d)
