"""Runs killed before, or in the middle of, any of their file system effects."""
import ctypes
import os
import pickle
import shutil

from vf import proj as P
from vf import projgen as G
from vf import rt

PLAN = {"quick": {"cases": 1000, "seconds": 45}, "thorough": {"cases": 100000, "seconds": 900}}
ASPECTS = tuple(a for a in G.ALL)
KINDS = ["open", "write", "rename", "remove", "mkdir", "truncate", "link"]
SHIM = []


def prepare(ctx):
    lib = ctypes.CDLL(os.environ["VF_SHIM"])
    lib.vf_setup.restype = lib.vf_disarm.restype = lib.vf_kind.restype = lib.vf_torn.restype = lib.vf_kinds.restype = ctypes.c_long
    lib.vf_path.restype = ctypes.c_char_p
    lib.vf_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long]
    assert lib.vf_setup() == 0
    SHIM.append(lib)
    if ctx.shard == 0:
        frozen_directory(ctx)


def frozen_directory(ctx):
    """the listed finding: between its replacements a snapshot directory is gone"""
    d = ctx.newdir()
    try:
        spec = {"units": [{"kind": "func", "fn": "f0", "name": "test/a", "deps": [], "deco": ["bt.snapshot_functions(vf_fun)"]}],
                "order": ["test/a"], "head": 'def vf_fun(*args):\n    return rt.real_call("x_book.vf_fun", args, {})\n'}
        proj = P.Project(d, spec)
        proj.behave = {"f0": {"lines": ["one"], "calls": [["x_book.vf_fun", [1], {}, False]]}}
        proj.invoke(["-s", "-a"])
        proj.behave["f0"]["lines"] = ["two"]
        for k in range(1, 60):
            killed, o = attack(proj, ["-a"], k, 0)
            if not killed:
                break
            have = os.path.isdir(os.path.join(proj.books, "test/a"))
            o = proj.invoke([])
            if not have and proj.records() == [("test/a", "FAIL")]:
                ctx.violation("a kill while a result is accepted loses the captured functions, so the next run fails", key="frozen-directory-lost")
                break
            shutil.rmtree(proj.books)
            proj.behave["f0"]["lines"] = ["one"]
            proj.invoke(["-s", "-a"])
            proj.behave["f0"]["lines"] = ["two"]
    finally:
        ctx.drop(d)


def attack(proj, args, k, permille, stdin=""):
    """one command that ends before its k-th effect; (was it killed, observation)"""
    s = SHIM[0]
    s.vf_arm(os.fsencode(os.path.realpath(proj.books)), k, permille)
    o = proj.invoke(args, stdin=stdin, quiesce=8 if G.parallel(args) else 0)
    o.effects = s.vf_disarm()
    o.kind = s.vf_kind()
    o.torn = s.vf_torn()
    o.where = s.vf_path().decode("utf-8", "replace")
    o.kinds = [s.vf_kinds(n) for n in range(len(KINDS))]
    return o.kind >= 0, o


def records(proj, strict):
    """the records that a later run can read"""
    rv = []
    for ln in (P.slurp(os.path.join(proj.out, "cases.txt")) if os.path.exists(os.path.join(proj.out, "cases.txt")) else "").split("\n"):
        parts = ln.split("\t")
        if len(parts) < 2 or parts[1] not in ("OK", "DIFF", "FAIL"):
            continue
        if strict:
            try:
                float(parts[2])
            except (IndexError, ValueError):
                continue
        rv.append((parts[0], parts[1]))
    return rv


def stored(proj):
    """what a dependent gets: {name: canon}; the unreadable ones"""
    rv, torn = {}, []
    for c in proj.cases:
        p = os.path.join(proj.out, c.name + ".bin")
        if os.path.exists(p):
            try:
                with open(p, "rb") as f:
                    rv[c.name] = rt.canon(pickle.load(f))
            except Exception:
                torn.append(c.name)
    return rv, torn


def save(proj):
    rv = os.path.join(proj.root, "saved")
    if os.path.isdir(rv):
        shutil.rmtree(rv)
    if os.path.isdir(proj.books):
        shutil.copytree(proj.books, rv)
    return dict(proj.values)


def restore(proj, values):
    if os.path.isdir(proj.books):
        shutil.rmtree(proj.books)
    src = os.path.join(proj.root, "saved")
    if os.path.isdir(src):
        shutil.copytree(src, proj.books)
    proj.values = dict(values)


def arguments(rng, proj):
    args = list(rng.choice([[], ["-a"], ["-a"], ["-a", "-u"], ["-u"], ["-c"], ["-c", "-a"], ["-c", "-u"], ["-r", "-a"]]))
    if rng.random() < 0.2:
        args.append(rng.choice(["-p1", "-p2", "-p3"]))
    return args + G.selection(rng, proj, p_all=0.6)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(1, 6), dep=rng.choice([0.2, 0.6])))
        history = []
        for step in range(rng.randint(0, 3)):
            # what there was before
            G.change(rng, proj, step, p=0.5, fail=rng.choice([0, 0.2]))
            args = rng.choice([["-a"], ["-a", "-u"], []]) + ["*"]
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            if not go:
                return
        G.change(rng, proj, 9, p=0.6, fail=rng.choice([0, 0.2]))
        for c in proj.cases:
            if rng.random() < 0.1:
                # more than is written at once
                proj.behave[c.key]["lines"] = proj.behave[c.key]["lines"] + [f"long {n} " + "x" * 80 for n in range(300)]
            if rng.random() < 0.2:
                proj.behave[c.key]["mid"] = [rng.choice([0.001, 0.01])]
        if rng.random() < 0.25:
            return reviews(ctx, rng, proj, i, history)
        args = arguments(rng, proj)
        values = save(proj)
        killed, o = attack(proj, args, 0, 0)
        assert not killed
        total = o.effects
        ctx.count("effects_of_whole_runs", total)
        for k, n in enumerate(o.kinds):
            ctx.count("effects_" + KINDS[k], n)
        ks = list(range(1, total + 1))
        rng.shuffle(ks)
        for k in ks[:6 if ctx.quick else 40]:
            restore(proj, values)
            if not kills(ctx, rng, proj, args, k, list(history)):
                return
        ctx.sample({"case": i, "spec": proj.spec, "args": args, "effects": total})
    finally:
        ctx.drop(d)


def reviews(ctx, rng, proj, i, history):
    """a review, or the forgetting, of the records of a run is killed"""
    o, e, go = G.check_step(ctx, proj, [] + rng.choice([[], [], ["-p2"]]), ASPECTS, history=history)
    if not go:
        return
    forget = rng.random() < 0.35
    sel = G.selection(rng, proj, p_all=0.5)
    if forget:
        args, script = ["--forget"], []
    else:
        args = rng.choice([["-w"], ["--review"]]) + rng.choice([["-a"], ["-a"], ["-a", "-u"], ["-u"], ["-a", "-f"], ["-a", "-c"], ["-i"], ["-I", "-c"]])
        script = [rng.choice(["a", "a", "c", "c"]) for _ in proj.cases] * 2 if set(args) & {"-i", "-I"} else []
        script += ["c"] * len(script)
    args = args + sel
    pre, before, had = proj.records(), proj.snapshots(), dict(proj.values)
    if forget:
        e, texts = P.Expect(), {}
        chosen = P.choose(proj, sel or ["test", "book"], False)
        e.accepted, e.records = [], [r for r in pre if r[0] not in chosen]
    else:
        e, texts = G.expect_review(proj, args, script, pre)
    stdin = "\n".join(script) + "\n" if script else ""
    values = save(proj)
    killed, o = attack(proj, args, 0, 0, stdin)
    assert not killed
    ks = list(range(1, o.effects + 1))
    rng.shuffle(ks)
    ctx.count("effects_of_reviews", o.effects)
    for k in ks[:5 if ctx.quick else 40]:
        restore(proj, values)
        permille = rng.choice([0, 0, 1, 300, 500, 900, 999, 1000])
        killed, o = attack(proj, args, k, permille, stdin)
        now, got = proj.snapshots(), records(proj, True)
        h = history + [[args, script, k, permille, KINDS[o.kind] if killed else None, os.path.relpath(o.where, proj.books) if killed else None]]
        ctx.nontrivial([proj.spec, proj.behave, h])
        if killed:
            ctx.count("kills")
            ctx.count("killed_forgets" if forget else "killed_reviews")
            ctx.count("killed_at_" + KINDS[o.kind])
            ctx.distinct("killed_where", ["review", KINDS[o.kind], os.path.splitext(o.where)[1], o.torn > 0])
        why = None
        if o.hung:
            why = "the rest of it does not end"
        elif o.started:
            why = f"it ran {o.started}"
        elif got not in (pre, e.records) or records(proj, False) != got:
            why = f"the records are {got}, neither the old {pre} nor the new {e.records}"
        elif stored(proj) != (had, []):
            why = f"the stored results are {stored(proj)} instead of {had}"
        for c in proj.cases:
            old, x = before.get(c.name + ".md"), now.get(c.name + ".md")
            new = texts[c.name][0] if c.name in e.accepted else old
            if not why and x not in (old, new):
                why = f"the snapshot {c.name}.md is {x!r:.300}, neither the old {old!r:.300} nor the new {new!r:.300}"
            if not why and got == e.records != pre and x != new:
                why = f"{c.name} is recorded as accepted, but its snapshot is {x!r:.300} instead of {new!r:.300}"
            ctx.count("snapshots_old" if x == old else "snapshots_new")
            if not why and c.name not in e.accepted:
                a = {y: v for y, v in before.items() if y.startswith(c.name + "/")}
                b = {y: v for y, v in now.items() if y.startswith(c.name + "/")}
                if a != b:
                    why = f"the snapshot files of {c.name}, which is not accepted, are {sorted(b)} instead of {sorted(a)}"
        if why:
            ctx.violation(f"{why}, after a kill at effect {k} of a review ({h[-1]})", spec=proj.spec, behaviours=proj.behave, history=h,
                          records_before=pre, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
            return
        if not recover(ctx, rng, proj, ["*"], list(h)):
            return
    ctx.sample({"case": i, "spec": proj.spec, "args": args, "effects": o.effects})


def kills(ctx, rng, proj, args, k, history):
    """a killed run, perhaps its killed repetition, and the one that completes"""
    for n in range(rng.choice([1, 1, 1, 2, 3])):
        permille = rng.choice([0, 0, 1, 300, 500, 900, 999, 1000])
        before, pre, had = proj.snapshots(), records(proj, True), dict(proj.values)
        was_ok = {x for x, r in records(proj, False) if r == "OK"}
        flags, sel = P.split_args(args)
        todo = [x for x in P.choose(proj, sel, "-r" in flags) if not ("-c" in flags and dict(pre).get(x) == "OK")]
        e = P.expect_run_on(proj, args, (), None if not G.parallel(args) else G.topological(proj, todo), before, pre)
        killed, o = attack(proj, args, k, permille)
        history.append([args, k, permille, KINDS[o.kind] if killed else None, os.path.relpath(o.where, proj.books) if killed else None])
        ctx.count("kills" if killed else "runs_that_ended_before")
        if killed:
            ctx.count("killed_at_" + KINDS[o.kind])
            ctx.count("torn_writes", o.torn > 0)
            ctx.count("kills_of_parallel_runs", G.parallel(args))
            ctx.distinct("killed_where", [KINDS[o.kind], os.path.splitext(o.where)[1], o.torn > 0])
        ctx.nontrivial([proj.spec, proj.behave, history])

        def bad(why):
            ctx.violation(f"{why}, after a kill at effect {k} ({history[-1]})", spec=proj.spec, behaviours=proj.behave, history=history,
                          records_before=pre, cases=P.slurp(os.path.join(proj.out, "cases.txt")) if os.path.exists(os.path.join(proj.out, "cases.txt")) else None,
                          stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
            return False

        if o.hung:
            return bad("the rest of the run does not end")
        now = proj.snapshots()
        for c in proj.cases:
            old, got = before.get(c.name + ".md"), now.get(c.name + ".md")
            new = e.texts[c.name].encode() if c.name in e.accepted else old
            if got != old and got != new:
                return bad(f"the snapshot {c.name}.md is {got!r:.300}, neither the old {old!r:.300} nor the new {new!r:.300}")
            ctx.count("snapshots_old" if got == old else "snapshots_new")
            if c.name not in e.accepted:
                a = {x: v for x, v in before.items() if x.startswith(c.name + "/")}
                b = {x: v for x, v in now.items() if x.startswith(c.name + "/")}
                if a != b:
                    return bad(f"the snapshot files of {c.name}, which is not accepted, are {sorted(b)} instead of {sorted(a)}")
        begun = {proj.bykey[x["case"]].name for x in o.events if x["ev"] == "start"}
        ended = {proj.bykey[x["case"]].name for x in o.events if x["ev"] == "end"}
        if not G.parallel(args):
            # all but the last that began have ended before
            order = [proj.bykey[x["case"]].name for x in o.events if x["ev"] == "start"]
            known, should = dict(records(proj, True)), dict(e.records)
            for n_ in order[:-1]:
                ctx.count("ended_cases_checked")
                if known.get(n_) != should.get(n_):
                    return bad(f"{n_} ended {should.get(n_)} before {order[-1]} began, but is recorded {known.get(n_)}")
        left, got = [x for x in pre if x[0] not in todo], records(proj, True)
        ctx.count("kept_records_checked", len(left))
        if got[:len(left)] != left and got != pre:
            return bad(f"the records were {pre}, and those of cases that are not run {left}, but are {got}")
        have, torn = stored(proj)
        for n_, r in records(proj, False):
            if r != "OK":
                continue
            ctx.count("ok_records_checked")
            if n_ in ended and e.results.get(n_) == "OK":
                # what it gave is there for the others
                if e.values.get(n_) != have.get(n_):
                    return bad(f"{n_} is recorded OK, but the result stored is {have.get(n_, 'none or unreadable')} instead of {e.values.get(n_)}")
            elif n_ in begun or n_ not in was_ok:
                return bad(f"{n_} is recorded OK, but it did not end so (begun {n_ in begun}, ended {n_ in ended}, before {n_ in was_ok})")
        for n_, v in have.items():
            if v != had.get(n_) and not (n_ in ended and v == e.values.get(n_)):
                return bad(f"the stored result of {n_} is {v}, neither the old {had.get(n_)} nor the new {e.values.get(n_)}")
        proj.values = have
        k = rng.randint(1, 40)
        if rng.random() < 0.3:
            args = arguments(rng, proj)
    return recover(ctx, rng, proj, args, history)


def recover(ctx, rng, proj, args, history):
    """the run that is not killed"""
    if rng.random() < 0.6:
        args = rng.choice([[], ["-c"], ["-c"], ["-c", "-a"], ["-a"]]) + rng.choice([[], ["-p2"]]) + \
            rng.choice([[a for a in args if not a.startswith("-")], ["*"], [rng.choice(proj.cases).name]])
    why = None
    variants = [records(proj, True), records(proj, False)]
    before = proj.snapshots()
    o = proj.invoke(args, quiesce=8 if G.parallel(args) else 0)
    o.par, o.before, o.after_records, o.after = G.parallel(args), before, proj.records(), proj.snapshots()
    history.append(args)
    ctx.count("completed_runs")
    if "parsing line" in o.stderr:
        # a half-written record is reported and left out
        ctx.count("half_written_records")
        o.crashed = False
    for pre in variants:
        o.pre = pre
        flags, sel = P.split_args(args)
        todo = [x for x in P.choose(proj, sel, "-r" in flags) if not ("-c" in flags and dict(pre).get(x) == "OK")]
        order = None
        o.order_ok = True
        if o.par:
            kept = [r for r in pre if r[0] not in todo]
            tail = [r[0] for r in o.after_records[len(kept):]]
            o.order_ok = o.after_records[:len(kept)] == kept and sorted(tail) == sorted(todo)
            order = tail if o.order_ok else G.topological(proj, todo)
        e = P.expect_run_on(proj, args, (), order, before, pre)
        e.todo = todo
        bad = G.compare(proj, o, e, ASPECTS)
        if not bad:
            return True
        why = why or bad[0]
    ctx.violation(f"the run {args} after the kill: {why[0]}: {why[1]}", history=history, **G.describe(proj, args, (), o, e))
    return False
