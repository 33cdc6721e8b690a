"""tset: membership, not order."""
import os
from collections import Counter

from vf import stream as S
from vf import streamgen as G

PLAN = {"quick": {"cases": 1200, "seconds": 60}, "thorough": {"cases": 80000, "seconds": 900}}


def case(ctx, rng, i):
    d = ctx.newdir()
    root = os.path.join(d, "books")
    name = G.name(rng)
    prefix = rng.choice([" * ", " * ", "- ", "+ ", "* ", "item: ", "  - "])
    lead = [S.norm(G.text(rng)).replace("\n", " ") for _ in range(rng.choice([0, 1, 3]))]
    lead = [x for x in lead if not x.startswith(prefix)]
    a = G.items(rng, rng.choice([0, 1, 2, 3, 5, 9]), alike=rng.choice([0, 0, 0.5]))
    b = list(a)
    rng.shuffle(b)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        k = rng.random()
        if k < 0.35 and b:
            del b[rng.randrange(len(b))]
        elif k < 0.7:
            x = G.items(rng, 1)[0]
            if x not in b or rng.random() < 0.3:
                b.insert(rng.randint(0, len(b)), x)
        elif b:
            n = rng.randrange(len(b))
            x = b[n]
            y = x + rng.choice(["x", " ", "0"]) if rng.random() < 0.6 else x[:-1]
            if y not in b or rng.random() < 0.3:
                b[n] = y
    tail = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = rng.choice(["end", "## next", "a=1", ""]) + G.text(rng, 1, odd=False)
        if not s.startswith(prefix):
            tail.append(s)
    second = None
    if tail and rng.random() < 0.3:
        second = G.items(rng, rng.choice([1, 2, 4]), alike=rng.choice([0, 0.4]))
    snap_lines = lead + [prefix + x for x in a] + tail + ([prefix + x for x in second] if second else [])
    snap = "\n".join(snap_lines) + "\n" if snap_lines else ""
    if snap_lines and snap_lines[-1] and rng.random() < 0.3:
        snap = snap[:-1]
    # the run: tail changed in one line sometimes
    tail1 = list(tail)
    if tail1 and rng.random() < 0.2:
        tail1[rng.randrange(len(tail1))] += " changed"
    prog = [["tln", x] for x in lead] + [["tset", b, prefix]] + [["tln", x] for x in tail1]
    if second:
        s2 = list(second)
        rng.shuffle(s2)
        prog.append(["tset", s2, prefix])
    S.put_snapshot(root, name, snap)
    o = S.run(root, name, prog, rng.choice([[], [], ["-v"]]), rng.random() < 0.2)
    # the items of the snapshot's set, as it can be read from the text
    same = Counter(a) == Counter(b)
    want = "OK" if same and tail1 == tail else "DIFF"
    ctx.count("runs")
    ctx.count("permuted" if same and a != b else "same_order" if same else "membership_changed")
    if len(set(a)) < len(a) or len(set(b)) < len(b):
        ctx.count("items_alike")
    if not tail:
        ctx.count("set_at_the_end")
    ctx.nontrivial([snap, prog])
    detail = dict(snapshot=snap, program=prog, name=name)
    ctx.sample({"case": i, "snapshot": snap, "program": prog, "result": want})
    if o.crash:
        ctx.violation(f"the run {o.crash}", **detail)
        return ctx.drop(d)
    if o.result != want or (o.rv == 0) != (want == "OK"):
        ctx.violation(f"the result is {o.result} with status {o.rv} instead of {want}: snapshot items {a}, items {b}, lines after {tail1} / {tail}",
                      report=o.rep, **detail)
        return ctx.drop(d)
    rows = S.rows_of(o.rep)
    marks = [r[:1] for r in rows]
    k = len(lead)
    texts = [r[2:] for r in rows]
    bad = None
    if len(rows) != len(lead) + len(b) + len(tail1) + (len(second) if second else 0):
        bad = f"{len(rows)} report lines"
    elif any(m != " " for m in marks[:k]):
        bad = "a line before the set is marked"
    else:
        left = Counter(a)
        for n, x in enumerate(b):
            left[x] -= 1
            if (marks[k + n] != " ") != (left[x] < 0):
                bad = f"item {x!r} is marked {marks[k + n]!r}"
        for n, x in enumerate(tail1):
            # what is missing from the set may show on the line after it
            if n == 0 and Counter(a) - Counter(b):
                continue
            if (marks[k + len(b) + n] != " ") != (tail[n] != x):
                bad = f"line {x!r} after the set is marked {marks[k + len(b) + n]!r}"
        if second and not (Counter(a) - Counter(b) and not tail1) and any(m != " " for m in marks[k + len(b) + len(tail1):]):
            bad = "an item of the second, unchanged set is marked"
    if bad:
        ctx.violation(bad, report=o.rep, **detail)
    got = (o.out or "").split("\n")[:-1]
    exp = lead + [prefix + x for x in b] + tail1 + ([prefix + x for x in s2] if second else [])
    if got != exp:
        ctx.violation(f"the output is {got} instead of {exp}", **detail)
    ctx.drop(d)
