"""Ignored text changes freely: OK, no marks."""
import copy
import os

from vf import stream as S
from vf import streamgen as G

PLAN = {"quick": {"cases": 600, "seconds": 60}, "thorough": {"cases": 50000, "seconds": 900}}


def same_shape(rng, s):
    """another text with the same number of tokens"""
    out = []
    n = len(S.tokenize(S.norm(s)))
    for _ in range(200):
        c = "".join(rng.choice([G.word(rng), rng.choice(G.SEPS)]) for _ in range(rng.randint(1, n + 1)))
        c = S.norm(c).replace("\n", " ")
        if len(S.tokenize(c)) == n:
            return c
    # word separator word ...
    return "".join(rng.choice(["ab", "k9", "zebra"]) if k % 2 == 0 else rng.choice([":", ";", "|"]) for k in range(n))


def vary(rng, prog, ctx):
    """prog with other ignored text; tested text stays and stays aligned"""
    prog = copy.deepcopy(prog)
    n = 0
    while n < len(prog):
        op = prog[n]
        if op[0] == "iln" or op[0] == "i":
            line = op[1] if len(op) > 1 else ""
            tail = op[0] == "iln"
            if not tail:
                # ignored up to the end of the line?
                k = n + 1
                while k < len(prog) and prog[k][0] == "i":
                    k += 1
                tail = k < len(prog) and (prog[k][0] == "iln")
            if "\n" in S.norm(line):
                op[1:] = ["\n".join(G.text(rng) for _ in S.norm(line).split("\n"))]
            elif tail and rng.random() < 0.8:
                op[1:] = [S.norm(G.text(rng, rng.choice([0, 1, 2, 5]))).replace("\n", " ")]
                ctx.count("free_replacements")
            else:
                op[1:] = [same_shape(rng, line)]
                ctx.count("aligned_replacements")
        elif op[0] == "ifloatln":
            op[1] = rng.choice([0.0, -1.5, 1e9, 3.14159, rng.randint(-99999, 99999) / 128, float("inf"), 7])
            op[2] = rng.choice([None, "ms", "kB/s"])
        elif op[0] == "it":
            op[3] = [["apply", G.text(rng, 2, odd=False), True] if m[0] == "apply" else m for m in op[3]]
        elif op[0] == "ttable":
            op[1] = ["".join(rng.choice("abcdefgh") for _ in c) if op[1].count(c) == 1 else c for c in op[1]]
            if len(set(op[1])) != len(op[1]):
                op[1] = [chr(97 + k) * len(c) for k, c in enumerate(op[1])]
        n += 1
    return prog


def joined_ok(prog):
    """no ignored text shares a token with its neighbours, line by line"""
    line = []
    for op in prog:
        if op[0] in ("t", "i", "tln", "iln"):
            s = op[1] if len(op) > 1 else ""
            chk = op[0][0] == "t"
            parts = S.norm(s).split("\n")
            for k, part in enumerate(parts):
                if k:
                    line = []
                line.append((chk, part))
                whole = "".join(x[1] for x in line)
                bs = S.boundaries(whole)
                at = 0
                for a, (c, x) in enumerate(line):
                    if a and not (c and line[a - 1][0]) and at not in bs:
                        return False
                    at += len(x)
            if op[0].endswith("ln"):
                line = []
        else:
            if op[0] in ("assertln", "ifloatln", "imsln") and line and line[-1][1][-1:].isalnum():
                return False
            line = []
    return True


def case(ctx, rng, i):
    d = ctx.newdir()
    root = os.path.join(d, "books")
    name = G.name(rng)
    for _ in range(20):
        p0 = G.program(rng, rng.choice([2, 3, 5, 8]))
        p1 = vary(rng, p0, ctx)
        if joined_ok(p1):
            break
    else:
        ctx.count("skipped")
        return
    o = S.run(root, name, p0, ["-a"])
    if o.crash or o.rv != 0:
        ctx.violation(f"accepting ended {o.crash or o.rv}", program=p0)
        return
    snap = o.snap
    args = rng.choice([[], [], ["-v"], ["-f"], ["-a"]])
    o = S.run(root, name, p1, args, rng.random() < 0.2)
    detail = dict(snapshot=snap, program=p1, name=name, args=args, original=p0)
    ctx.count("runs")
    ctx.nontrivial([p0, p1])
    ctx.sample({"case": i, "snapshot": snap, "program": p1})
    if o.crash:
        ctx.violation(f"the run {o.crash}", **detail)
    elif o.result != "OK" or o.rv != 0:
        ctx.violation(f"only ignored text changed, but the result is {o.result}, status {o.rv}", report=o.rep, **detail)
    else:
        rows = S.rows_of(o.rep)
        ctx.count("lines", len(rows))
        if any(r[:1] != " " for r in rows):
            ctx.violation(f"only ignored text changed, but a line is marked: {[r for r in rows if r[:1] != ' '][:2]}", **detail)
        want = S.Model(snap, name).run(p1)
        why = S.compare_text(want, o.out)
        ctx.count("was_values", sum(" (was " in r for r in rows))
        if why:
            ctx.violation(why, **detail)
        if o.snap != snap:
            ctx.violation("the snapshot changed though the case was OK", **detail)
    ctx.drop(d)
