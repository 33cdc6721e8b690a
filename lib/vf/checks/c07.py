"""Failures: FAIL, never accepted, contained."""
import os
import threading

from vf import stream as S
from vf import streamgen as G
from vf.core import tree, diff_trees

PLAN = {"quick": {"cases": 500, "seconds": 60}, "thorough": {"cases": 40000, "seconds": 900}}

KINDS = ["fail", "fail_open", "fail_end", "assert", "assert_msg", "must", "tms", "exc", "value", "exit", "assertion", "key", "unpicklable",
         "diff_and_fail", "fail_then_more", "member", "speechless", "surrogate", "silent"]


def failing(rng, prog, kind):
    """ops, return value, and a text that the report must show"""
    prog = list(prog)
    starts = [n for n in range(len(prog) + 1) if n == 0 or prog[n - 1][0] not in ("t", "i")]
    at = rng.choice(starts)
    ret = None
    show = None
    ops = []
    if kind == "fail":
        ops = [["fail"], ["tln", "broken"]]
    elif kind == "fail_open":
        # on the last, unterminated line
        at = len(prog)
        ops = ([["tln"]] if prog and prog[-1][0] in ("t", "i") else []) + [["t", "last "], ["fail"], [rng.choice("ti"), "line"]]
    elif kind == "fail_end":
        at = len(prog)
        ops = [["tln"], ["fail"]]
    elif kind == "silent":
        # nothing at all is written
        return [["fail"]] * rng.randint(1, 2), None, None
    elif kind == "assert":
        ops, show = [["t", "is it? "], ["assertln", False, None]], "FAILED"
    elif kind == "assert_msg":
        ops, show = [["i", "is it? "], ["assertln", False, "because of this"]], "because of this"
    elif kind == "must":
        ops = [["it", "thing", [1], [["apply", "hold", True], ["contain", 5]]], ["tln"]]
        show = "FAILED"
    elif kind == "member":
        ops = [["it", "thing", {"a": 1}, [["member", "a", [["equal", 2]]]]], ["tln"]]
    elif kind == "tms":
        ops = [["t", "took "], ["tmsln_over"]]
    elif kind in ("exc", "value", "exit", "key"):
        msg = "boom " + G.text(rng, 2, odd=False)
        ops, show = [["raise", kind, msg]], msg
        if rng.random() < 0.3:
            ops = [["t", "unfinished "]] + ops
    elif kind == "speechless":
        ops = [["raise", "speechless", None]]
        if rng.random() < 0.3:
            ops = [["t", "unfinished "]] + ops
    elif kind == "surrogate":
        ops, show = [["raise", rng.choice(["exc", "key"]), "no file a\udcffb"]], "no file a\\"
    elif kind == "assertion":
        ops, show = [["raise", "assert", "claimed"]], "claimed"
    elif kind == "unpicklable":
        ret = rng.choice([lambda: 1, threading.Lock(), (x for x in [1])])
    elif kind == "diff_and_fail":
        ops = [["t", "text "], ["diff"], ["fail"], ["tln", "both"], ["diff"], ["tln", "differs only"]]
    elif kind == "fail_then_more":
        ops = [["fail"], ["iln", "ignored but failed"], ["tln", "fine"], ["h", 1, "later"]]
    prog[at:at] = ops
    return prog, ret, show


def case(ctx, rng, i):
    d = ctx.newdir()
    root = os.path.join(d, "books")
    kind = rng.choice(KINDS)
    good = G.program(rng, rng.choice([0, 1, 3, 5]), opts=("noims",))
    good = [op for op in good if op[0] != "timage"]
    base = rng.choice([None, good, G.program(rng, 3, ("noims",))])
    prog, ret, show = failing(rng, good, kind)
    # cases around it, with or without their own snapshots
    names = ["a", "book/fails", "book/z", "m"]
    rng.shuffle(names)
    bad_name = rng.choice(names)
    progs = {n: [op for op in G.program(rng, rng.choice([1, 2, 3]), ("noims",)) if op[0] != "timage"] for n in names}
    snaps = {n: None for n in names}
    for n in names:
        if n != bad_name and rng.random() < 0.6:
            snaps[n] = S.Model(None).run(progs[n]).text()
            if rng.random() < 0.4:
                snaps[n] = "other first line\n" + snaps[n]
    if base is not None:
        snaps[bad_name] = S.Model(None).run([op for op in base if op[0] != "timage"]).text()
    progs[bad_name] = prog
    for n, s in snaps.items():
        if s is not None:
            S.put_snapshot(root, n, s)
    if base is not None and rng.random() < 0.5:
        os.makedirs(os.path.join(root, bad_name), exist_ok=True)
        with open(os.path.join(root, bad_name, "kept.txt"), "w") as f:
            f.write("kept")
    before = tree(root, (".out", "index.md"))
    args = rng.choice([[], ["-a"], ["-u"], ["-a", "-u"], ["-i"], ["-I"], ["-a", "-i"], ["-v", "-a"], ["-u", "-I"], ["-c", "-a"]])
    # the user would accept everything there is
    stdin = "".join(rng.choice(["a\na\nc\n", "a\nc\n"]) for _ in range(12))
    cases = [[n, S.make_test(progs[n], rng.random() < 0.25, ret if n == bad_name else None)] for n in names]
    o = S.run_cases(root, cases, args + ["*"], stdin)
    after = tree(root, (".out", "index.md"))
    detail = dict(kind=kind, args=args, names=names, failing=bad_name, program=prog, snapshots=snaps, others={n: progs[n] for n in names if n != bad_name},
                  stdout=o.stdout[-3000:])
    ctx.count("runs")
    ctx.distinct("failure_kinds", kind)
    ctx.distinct("options", args)
    ctx.distinct("kind_and_options", [kind, args, base is None])
    ctx.nontrivial([kind, args, prog, names])
    ctx.sample({"case": i, "kind": kind, "args": args, "program": prog})

    def bad(why):
        ctx.violation(f"{kind}: {why}", **detail)
        ctx.drop(d)

    if o.crash:
        return bad(f"the run {o.crash}")
    res = S.result_of(root, bad_name)
    if res != "FAIL":
        return bad(f"the failing case is recorded {res}")
    if o.rv == 0:
        return bad("the run exits with 0")
    mine = [k for k in set(before) | set(after) if k == bad_name + ".md" or k == bad_name or k.startswith(bad_name + "/")]
    for k in mine:
        if before.get(k, "absent") != after.get(k, "absent"):
            return bad(f"the snapshot of the failing case changed: {k}")
    rep = S.read(os.path.join(root, ".out", bad_name + ".txt")) or ""
    if kind not in ("fail_end", "silent") and not any(r[:1] == "!" for r in rep.split("\n")):
        return bad("no line is marked as failed in the report")
    if show is not None and show not in rep:
        return bad(f"the report does not show {show!r}")
    if kind == "unpicklable" and "test raised exception" not in rep:
        return bad("the report does not show why the result cannot be stored")
    # others are what they would be without the failing case
    if "-i" in args or "-I" in args:
        return ctx.drop(d)
    for n in names:
        if n == bad_name:
            continue
        m = S.Model(snaps[n]).run(progs[n])
        want = m.result()
        if (want == "DIFF" and "-a" in args) or (want == "OK" and "-u" in args):
            if S.read(os.path.join(root, n + ".md")) != m.text():
                return bad(f"the other case {n} was not accepted as usual")
            want = "OK"
            ctx.count("others_accepted")
        elif S.read(os.path.join(root, ".out", n + ".md")) != m.text():
            return bad(f"the output of the other case {n} changed")
        got = S.result_of(root, n)
        ctx.count("other_cases")
        if got != want:
            return bad(f"the other case {n} is recorded {got} instead of {want}")
    ctx.drop(d)
