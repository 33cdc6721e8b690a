"""Output file, report, verbose output and accepted snapshot hold what was written."""
import os

from vf import stream as S
from vf import streamgen as G
from vf.checks import c02
from vf.core import tree

PLAN = {"quick": {"cases": 800, "seconds": 60}, "thorough": {"cases": 60000, "seconds": 900}}


def fails(rng, prog):
    """some failures in between"""
    prog = list(prog)
    if rng.random() < 0.35:
        starts = [n for n in range(len(prog) + 1) if n == 0 or prog[n - 1][0] not in ("t", "i")]
        for _ in range(rng.randint(1, 2)):
            n = rng.choice(starts)
            prog[n:n] = rng.choice([[["fail"], ["tln", "failing " + G.text(rng)]], [["t", "check: "], ["assertln", False, rng.choice([None, "why not"])]],
                                    [["t", "some text "], ["diff"], ["tln", G.text(rng)]], [["t", "took "], ["tmsln_over"]],
                                    [["t", "x "], ["fail"], ["i", "rest"], ["iln"]]])
            starts = [n for n in range(len(prog) + 1) if n == 0 or prog[n - 1][0] not in ("t", "i", "fail", "diff")]
    if rng.random() < 0.1:
        prog.append(["raise", rng.choice(["exc", "value", "exit"]), G.text(rng, 2, odd=False)])
    return prog


def shows(stdout, rows):
    out = stdout.split("\n")
    return any(out[n:n + len(rows)] == rows for n in range(len(out) - len(rows) + 1))


def case(ctx, rng, i):
    d = ctx.newdir()
    root = os.path.join(d, "books")
    name = G.name(rng)
    p0 = G.program(rng)
    snap = None
    k = rng.random()
    p1 = p0
    if k < 0.7:
        o = S.run(root, name, p0, ["-a"])
        snap = o.snap
        if k < 0.5:
            p1 = c02.mutate(rng, p0)
            if any(op[0] in ("anchor", "kv", "anchorln") and n and p1[n - 1][0] in ("t", "i") for n, op in enumerate(p1)):
                p1 = p0
    p1 = fails(rng, p1)
    want = S.Model(snap, name).run(p1)
    verbose = rng.random() < 0.4
    o = S.run(root, name, p1, ["-v"] if verbose else [], rng.random() < 0.2)
    detail = dict(snapshot=snap, program=p1, name=name, verbose=verbose)
    ctx.count("runs")
    ctx.count("lines", len(want.lines))
    ctx.distinct("result_kinds", [want.result(), verbose, snap is None])
    for op in p1:
        ctx.distinct("kinds_of_calls", op[0])
    ctx.nontrivial([snap, p1])
    ctx.sample({"case": i, "snapshot": snap, "program": p1})

    def bad(why):
        ctx.violation(why, output=o.out, report=o.rep, stdout=o.stdout[-3000:], **detail)
        ctx.drop(d)

    if o.crash:
        return bad(f"the run {o.crash}")
    why = S.compare_text(want, o.out)
    if why:
        return bad(why)
    rows = S.rows_of(o.rep)
    why = S.compare_report(rows, want)
    if why:
        return bad(why)
    if want.result() != o.result:
        return bad(f"the result is {o.result} instead of {want.result()}")
    if verbose:
        if not shows(o.stdout, rows):
            return bad("the verbose output does not show the lines of the report in order")
        ctx.count("verbose_reports")
    if rng.random() < 0.4:
        # so does a later review
        out, rep, was = o.out, o.rep, o.result
        o = S.run(root, name, p1, ["-w", "-v"])
        ctx.count("verbose_reviews")
        if o.crash:
            return bad(f"the review {o.crash}")
        if not shows(o.stdout, rows):
            return bad("the verbose review does not show the lines of the report in order")
        if (o.out, o.rep, o.result, o.snap) != (out, rep, was, snap):
            return bad("the review changed the result, the report or the snapshot")
    if want.result() != "FAIL" and all(ln.text is not None for ln in want.lines):
        out = o.out
        o = S.run(root, name, p1, ["-a"] if want.result() == "DIFF" else ["-u"])
        want2 = S.Model(snap, name).run(p1)
        ctx.count("accepted")
        if want.plain() and not any(op[0] == "ifloatln" for op in p1) and o.snap != out:
            return bad(f"the accepted snapshot {o.snap!r} is not the output {out!r}")
        why = S.compare_text(want2, o.snap)
        if why:
            return bad("accepted: " + why)
    ctx.drop(d)
