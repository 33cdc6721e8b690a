"""Tested text changed relative to the snapshot: DIFF, exit status, exact marks."""
import copy
import os

from vf import stream as S
from vf import streamgen as G
from vf.core import tree, diff_trees

PLAN = {"quick": {"cases": 1000, "seconds": 60}, "thorough": {"cases": 80000, "seconds": 900}}
OPTS = ("noims",)


NEAR = [(" ", "\t"), ("\t", " "), (" ", "  "), ("  ", " "), (" ", "\u00a0"), ("é", "e\u0301"), ("e\u0301", "é"), ("0.250", "0.25"), ("3.5", "3.50"),
        ("3", "3.0"), ("0", "-0"), ("12", "012"), ("12", "+12"), ("-", "\u2010"), ("\"", "'"), ("1", "\u00b9"), ("1", "\u0661"),
        ("ß", "ss"), ("½", "1/2"), ("x", "X"), ("A", "a"), ("a", "\u0430"), (":", ";"), ("...", "\u2026"), ("True", "true"), ("1", "l"), ("0", "O"),
        ("nan", "NaN"), ("#", "##"), ("\ufeff", ""), ("\u200b", ""), ("*", "-")]


def edit(rng, s):
    """a different text"""
    if rng.random() < 0.25:
        # text that is easily taken as the same
        fit = [x for x in NEAR if x[0] in s]
        if fit:
            a, b = rng.choice(fit)
            p = rng.choice([m for m in range(len(s)) if s.startswith(a, m)])
            return s[:p] + b + s[p + len(a):]
        return rng.choice([s + " ", " " + s, s + "\t", s + "\u200b"])
    if rng.random() < 0.1:
        # the same tokens in another order
        ts = list(S.tokenize(s))
        if len(ts) > 1:
            p = rng.randrange(len(ts) - 1)
            ts[p], ts[p + 1] = ts[p + 1], ts[p]
            if "".join(ts) != s:
                return "".join(ts)
    for _ in range(50):
        k = rng.random()
        n = len(s)
        if n == 0 or k < 0.2:
            p = rng.randint(0, n)
            r = s[:p] + rng.choice(["x", "7", " ", ".", G.word(rng)]) + s[p:]
        elif k < 0.4:
            p = rng.randrange(n)
            r = s[:p] + s[p + 1:]
        elif k < 0.6:
            p = rng.randrange(n)
            c = s[p]
            r = s[:p] + (rng.choice("0123456789") if c.isdigit() else c.swapcase() if c.isalpha() else "  " if c == " " else "!") + s[p + 1:]
        elif k < 0.7:
            r = s[:rng.randrange(n)]
        elif k < 0.8:
            r = s + rng.choice([" ", "0", "x", " more"])
        else:
            r = G.text(rng)
        if r != s:
            return r
    return s + "z"


def mutate(rng, prog):
    prog = copy.deepcopy(prog)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        idx = [n for n, op in enumerate(prog) if op[0] in ("t", "tln", "kv", "tlist", "ttable", "tdf", "tformat", "h", "it", "iln", "i")]
        if k < 0.7 and idx:
            op = prog[rng.choice(idx)]
            if op[0] in ("t", "tln", "i", "iln"):
                if len(op) < 2:
                    op.append(edit(rng, ""))
                else:
                    op[1] = edit(rng, op[1])
            elif op[0] == "kv":
                op[2] = edit(rng, op[2])
            elif op[0] == "tlist":
                if op[1] and rng.random() < 0.7:
                    n = rng.randrange(len(op[1]))
                    op[1][n] = edit(rng, op[1][n])
                else:
                    op[1].append(G.text(rng))
            elif op[0] in ("ttable", "tdf"):
                if op[2] and rng.random() < 0.8:
                    r = rng.choice(op[2])
                    c = rng.randrange(len(r))
                    if isinstance(r[c], str):
                        r[c] = edit(rng, r[c])
                    elif isinstance(r[c], bool):
                        r[c] = not r[c]
                    else:
                        r[c] += 1
                elif op[2]:
                    op[2].append(copy.deepcopy(op[2][-1]))
            elif op[0] == "tformat":
                op[1] = G.jsonish(rng)
            elif op[0] == "h":
                op[2] = edit(rng, op[2])
            elif op[0] == "it":
                op[3] = [["apply", G.text(rng, 1), True]]
        elif k < 0.85:
            # another block somewhere at a line start
            starts = [n for n in range(len(prog) + 1) if n == 0 or prog[n - 1][0] not in ("t", "i")]
            n = rng.choice(starts)
            prog[n:n] = G.block(rng, OPTS)
        elif k < 0.93:
            prog.extend(G.block(rng, OPTS))
        elif prog:
            del prog[rng.randrange(len(prog))]
    return prog


def case(ctx, rng, i):
    d = ctx.newdir()
    root = os.path.join(d, "books")
    name = G.name(rng)
    try:
        if rng.random() < 0.3:
            plain(ctx, rng, i, root, name)
        else:
            modelled(ctx, rng, i, root, name)
    finally:
        ctx.drop(d)


def finish(ctx, o, before, root, detail, want, why):
    if o.crash:
        return ctx.violation(f"the run {o.crash}", stdout=o.stdout, **detail)
    if o.result != want:
        return ctx.violation(f"the result is {o.result} instead of {want}: {why}", report=o.rep, **detail)
    if (o.rv == 0) != (want == "OK"):
        return ctx.violation(f"the exit status is {o.rv} for a result {want}", report=o.rep, **detail)
    after = tree(root, (".out", "index.md"))
    if after != before and not detail["images"]:
        return ctx.violation(f"the snapshot changed: {diff_trees(before, after)}", **detail)


def plain(ctx, rng, i, root, name):
    """only tested text: OK exactly if the run's lines are the first lines of the snapshot"""
    n = rng.randint(1, 6)
    a = [S.norm(G.text(rng)).replace("\n", " ") for _ in range(n)]
    b = list(a)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        p = rng.randrange(len(b)) if b else 0
        if k < 0.5 and b:
            b[p] = S.norm(edit(rng, b[p])).replace("\n", " ")
        elif k < 0.7:
            b.insert(rng.randint(0, len(b)), G.text(rng, 1))
        elif k < 0.85:
            b.append(rng.choice(["", G.text(rng, 1)]))
        elif len(b) > 1:
            del b[p]
    a_open, b_open = rng.random() < 0.3, rng.random() < 0.3
    snap = "\n".join(a) + ("" if a_open and a[-1] else "\n")
    prog = []
    for k, s in enumerate(b):
        for x in G.chop(rng, s):
            prog.append(["t", x])
        if k < len(b) - 1 or not b_open:
            prog.append(["tln"] if rng.random() < 0.7 else ["t", "\n"])
    if b and b_open and not b[-1]:
        b.pop()     # nothing was written on the last line
    prog.extend([])
    S.put_snapshot(root, name, snap)
    before = tree(root, (".out", "index.md"))
    o = S.run(root, name, prog, [], rng.random() < 0.2)
    ok = b == a[:len(b)]
    detail = dict(snapshot=snap, program=prog, name=name, images=False)
    ctx.count("runs")
    ctx.count("must_differ" if not ok else "must_be_ok")
    ctx.nontrivial([snap, prog])
    finish(ctx, o, before, root, detail, "OK" if ok else "DIFF", f"run lines {b}, snapshot lines {a}")
    if not o.crash:
        marks = [r[:1] for r in S.rows_of(o.rep)]
        want = ["?" if k >= len(a) or a[k] != b[k] else " " for k in range(len(b))]
        if marks != want:
            ctx.violation(f"the marked lines are {marks} instead of {want}", report=o.rep, **detail)


def modelled(ctx, rng, i, root, name):
    p0 = G.program(rng, opts=OPTS)
    p1 = mutate(rng, p0)
    if any(op[0] in ("anchor", "kv", "anchorln", "header", "h", "it") and n and p1[n - 1][0] in ("t", "i")
           for n, op in enumerate(p1) if op[0] in ("anchor", "kv", "anchorln")):
        ctx.count("skipped")
        return
    snap = S.Model(None, name).run(p0).text()
    if rng.random() < 0.15 and snap.endswith("\n") and len(snap) > 1 and snap[-2] != "\n":
        snap = snap[:-1]
    want = S.Model(snap, name).run(p1)
    S.put_snapshot(root, name, snap)
    before = tree(root, (".out", "index.md"))
    args = rng.choice([[], [], ["-v"], ["-u"], ["-f"]])
    if want.result() == "OK" and "-u" in args:
        args = []
    o = S.run(root, name, p1, args, rng.random() < 0.2)
    detail = dict(snapshot=snap, program=p1, name=name, args=args, images=True)
    ctx.count("runs")
    ctx.count("must_differ" if want.result() == "DIFF" else "must_be_ok")
    ctx.count("lines_marked", sum(m != " " for m in want.marks()))
    ctx.count("lines_unmarked", sum(m == " " for m in want.marks()))
    ctx.nontrivial([snap, p1])
    finish(ctx, o, before, root, detail, want.result(),
           f"lines that differ {[ln for ln in want.lines if ln.mark != ' '][:3]}")
    if not o.crash:
        why = S.compare_report(S.rows_of(o.rep), want, marks_only=True)
        if why:
            ctx.violation(why, report=o.rep, **detail)
    if o.snap != snap and not o.crash and o.snap is not None and not (args == ["-u"]):
        ctx.violation("the snapshot text changed without acceptance", **detail)
    ctx.sample({"case": i, "snapshot": snap, "program": p1, "result": want.result(), "marks": "".join(want.marks())})
