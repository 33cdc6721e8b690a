"""Sections: differences stay in their own section."""
import copy
import os

from vf import stream as S
from vf import streamgen as G
from vf.checks import c02

PLAN = {"quick": {"cases": 900, "seconds": 60}, "thorough": {"cases": 80000, "seconds": 900}}


def section(rng, uid, old=()):
    kind = rng.choice(["h1", "h2", "h3", "header", "anchorln", "kv", "anchor"])
    base = rng.choice(["Results", "step", "S", "data set", "## odd", "x.y"]) + f" {uid}"
    if old and rng.random() < 0.35:
        # a title that extends another one, before or after its own place
        s = rng.choice(old)
        kind = s["kind"]
        base = s["title"] + rng.choice(["x", " b", "2", ".", " (old)"]) + uid
    return {"kind": kind, "title": base, "body": body(rng)}


def body(rng):
    rv = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        k = rng.random()
        if k < 0.6:
            rv.extend(G.ops_of_line(rng, G.mixed_line(rng, odd=False)))
        elif k < 0.7:
            rv.append(["ttable"] + G.table(rng))
        elif k < 0.8:
            rv.append(["tlist", G.items(rng, lo=1), "- "])
            rv.append(["tln", ""])
        elif k < 0.9:
            rv.append(["tset", G.items(rng, lo=1), " * "])
            rv.append(["tln", "."])
        else:
            rv.append(["iln", G.text(rng)])
    return rv


def head_ops(s):
    k, t = s["kind"], s["title"]
    if k in ("h1", "h2", "h3"):
        return [["h", int(k[1]), t]]
    if k in ("header", "anchorln"):
        return [[k, "%" + t]]
    if k == "kv":
        return [["kv", t + ":", "value"]]
    return [["anchor", t + " ="], ["tln", " 1"]]


def program(secs, lead):
    """ops, and the section index of every op"""
    prog, owner = list(lead), [None] * len(lead)
    for n, s in enumerate(secs):
        for op in head_ops(s) + s["body"]:
            prog.append(op)
            owner.append(n)
    return prog, owner


def edit(rng, secs, uid):
    secs = [dict(copy.deepcopy(s), same=True) for s in secs]
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < 0.25:
            secs.insert(rng.randint(0, len(secs)), dict(section(rng, next(uid), secs), same=False, new=True))
        elif k < 0.4 and len(secs) > 1:
            del secs[rng.randrange(len(secs))]
        elif k < 0.75 and secs:
            s = rng.choice(secs)
            s["same"] = False
            b = s["body"]
            q = rng.random()
            if q < 0.4:
                b[0:0] = G.ops_of_line(rng, G.mixed_line(rng, odd=False))
            elif q < 0.7:
                b.extend(G.ops_of_line(rng, G.mixed_line(rng, odd=False), end="tln"))
            else:
                s["body"] = body(rng)
        elif k < 0.85 and secs:
            s = rng.choice(secs)
            s["title"] = s["title"].split(" ")[0] + f" {next(uid)}"
            s["same"], s["new"] = False, True
        elif len(secs) > 1:
            a, b = rng.randrange(len(secs)), rng.randrange(len(secs))
            secs[a], secs[b] = secs[b], secs[a]
    if rng.random() < 0.1:
        rng.shuffle(secs)
    return secs


def case(ctx, rng, i):
    d = ctx.newdir()
    root = os.path.join(d, "books")
    name = G.name(rng)
    # unique by a word that no other title or line has
    def ids():
        n = 0
        while True:
            n += 1
            yield f"q{n}q{rng.randint(100, 999)}"
    uid = ids()
    secs = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        secs.insert(rng.choice([0, len(secs), rng.randint(0, len(secs))]), section(rng, next(uid), secs))
    lead = body(rng) if rng.random() < 0.3 else []
    p0, _ = program(secs, lead)
    new = edit(rng, secs, uid)
    lead1 = lead if rng.random() < 0.8 else body(rng)
    p1, owner = program(new, lead1)
    snap = S.Model(None).run(p0).text()
    if rng.random() < 0.1 and snap.endswith("\n") and snap[-2:-1] not in ("\n", ""):
        snap = snap[:-1]
    want = S.Model(snap)
    spans = []
    for op, own in zip(p1, owner):
        begin = len(want.lines)
        opened = bool(want.lines or want.cur)
        getattr(want, "op_" + op[0])(*op[1:])
        # the empty line that a header writes first belongs to no section
        skip = 1 if op[0] in ("h", "header") and opened else 0
        spans.append((own, op, begin + skip, len(want.lines)))
    want.end()
    S.put_snapshot(root, name, snap)
    o = S.run(root, name, p1, [], rng.random() < 0.2)
    detail = dict(snapshot=snap, program=p1, name=name, original=p0)
    ctx.count("runs")
    ctx.count("sections", len(new))
    ctx.count("unchanged_sections", sum(s["same"] for s in new))
    ctx.nontrivial([snap, p1])
    ctx.sample({"case": i, "snapshot": snap, "program": p1})
    if o.crash:
        ctx.violation(f"the run {o.crash}", **detail)
        return ctx.drop(d)
    rows = S.rows_of(o.rep)
    # 1. directly: unchanged sections carry no marks, new titles are marked
    for own, op, a, b in spans:
        if own is None:
            continue
        s = new[own]
        if s["same"]:
            for n in range(a, b):
                if n < len(rows) and rows[n][:1] != " ":
                    ctx.violation(f"line {n + 1} of the unchanged section {s['title']!r} is marked: {rows[n]!r}", report=o.rep, **detail)
                    return ctx.drop(d)
        elif s.get("new") and op is not None and op[0] in ("h", "header", "anchorln", "kv"):
            ctx.count("new_titles")
            if a < len(rows) and rows[a][:1] != "?":
                ctx.violation(f"the title {rows[a]!r} is not in the snapshot but not marked", report=o.rep, **detail)
                return ctx.drop(d)
    # 2. all marks against the model
    why = S.compare_report(rows, want, marks_only=True)
    if why:
        ctx.violation(why, report=o.rep, **detail)
    elif o.result != want.result() or (o.rv == 0) != (want.result() == "OK"):
        ctx.violation(f"the result is {o.result} with status {o.rv} instead of {want.result()}", report=o.rep, **detail)
    ctx.drop(d)
