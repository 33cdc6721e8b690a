"""Runs whose writes fail: a full disk, a quota, no permission, an error of the device."""
import ctypes
import errno
import os

from vf import proj as P
from vf import projgen as G
from vf import rt
from vf.checks import c14 as K

PLAN = {"quick": {"cases": 1000, "seconds": 45}, "thorough": {"cases": 100000, "seconds": 900}}
ASPECTS = K.ASPECTS
ERRORS = [errno.ENOSPC, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EIO, errno.EROFS]
SPANS = [1, 1, 1, 2, 5, 1 << 40, 1 << 40]


def prepare(ctx):
    lib = ctypes.CDLL(os.environ["VF_SHIM"])
    lib.vf_setup.restype = lib.vf_disarm.restype = lib.vf_kind.restype = lib.vf_torn.restype = lib.vf_kinds.restype = ctypes.c_long
    lib.vf_faults.restype = ctypes.c_long
    lib.vf_path.restype = ctypes.c_char_p
    lib.vf_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long]
    lib.vf_fault.argtypes = [ctypes.c_long, ctypes.c_long]
    lib.vf_fault.restype = None
    assert lib.vf_setup() == 0
    K.SHIM[:] = [lib]


def faulty(proj, args, k, permille, error, span, stdin=""):
    """one command whose effects fail from the k-th on"""
    def call():
        import asyncio
        import logging
        import signal
        import sys
        import booktest.cli
        root = logging.getLogger()
        host = logging.NullHandler()
        root.addHandler(host)
        err, handlers, sig = sys.stderr, list(root.handlers), str(signal.getsignal(signal.SIGINT))
        raised = None
        try:
            rv = booktest.cli.main(list(args))
        except SystemExit as e:
            rv = e.code
        except (Exception, asyncio.CancelledError) as e:
            rv = 1
            raised = f"{type(e).__name__}: {e}"
        now = sys.stderr
        sys.stderr = sys.__stderr__
        rt.log(ev="after", err=now is err, handlers=root.handlers == handlers, raised=raised,
               sigint=str(signal.getsignal(signal.SIGINT)) == sig, directory=os.path.realpath(os.getcwd()) == os.path.realpath(proj.dir))
        return rv

    s = K.SHIM[0]
    s.vf_arm(os.fsencode(os.path.realpath(proj.books)), k, permille)
    s.vf_fault(error, span)
    o = proj.invoke(args, stdin=stdin, call=call, quiesce=8 if G.parallel(args) else 0)
    o.effects = s.vf_disarm()
    o.kind = s.vf_kind()
    o.faults = s.vf_faults()
    o.torn = s.vf_torn()
    o.where = s.vf_path().decode("utf-8", "replace")
    o.state = [e for e in o.events if e["ev"] == "after"]
    return o


def whole(proj, o, args, k, permille, error, span):
    return [args, k, permille, errno.errorcode[error], span if span < 1 << 40 else "all", o.faults,
            K.KINDS[o.kind] if o.faults else None, os.path.relpath(o.where, proj.books) if o.faults else None]


def left_behind(o):
    """what is wrong with the process after the command"""
    if o.hung:
        return "the run does not end"
    if len(o.state) != 1:
        return f"the run ended with status {o.rc}"
    s = o.state[0]
    for k, what in (("err", "sys.stderr is not the one from before"), ("handlers", "the handlers of the root logger are not those from before"),
                    ("sigint", "the handler of Ctrl-C is not the one from before"), ("directory", "the working directory changed")):
        if not s[k]:
            return what
    return None


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(1, 6), dep=rng.choice([0.2, 0.6])))
        history = []
        for step in range(rng.randint(0, 3)):
            G.change(rng, proj, step, p=0.5, fail=rng.choice([0, 0.2]))
            args = rng.choice([["-a"], ["-a", "-u"], []]) + ["*"]
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            if not go:
                return
        G.change(rng, proj, 9, p=0.6, fail=rng.choice([0, 0.2]))
        for c in proj.cases:
            if rng.random() < 0.15:
                # more than is written at once
                proj.behave[c.key]["lines"] = proj.behave[c.key]["lines"] + [f"long {n} " + "x" * 80 for n in range(300)]
            if rng.random() < 0.2:
                proj.behave[c.key]["mid"] = [rng.choice([0.001, 0.01])]
        if rng.random() < 0.25:
            return reviews(ctx, rng, proj, i, history)
        args = K.arguments(rng, proj)
        values = K.save(proj)
        o = faulty(proj, args, 0, 0, errno.EIO, 1)
        total = o.effects
        ctx.count("effects_of_whole_runs", total)
        ks = list(range(1, total + 1))
        rng.shuffle(ks)
        for k in ks[:6 if ctx.quick else 40]:
            K.restore(proj, values)
            if not faults(ctx, rng, proj, args, k, list(history)):
                return
        ctx.sample({"case": i, "spec": proj.spec, "args": args, "effects": total})
    finally:
        ctx.drop(d)


def count(ctx, o, span, error):
    ctx.count("commands_with_failing_writes")
    ctx.count("failed_effects", min(o.faults, 1000))
    ctx.count("failed_at_" + K.KINDS[o.kind])
    ctx.count("failing_on" if span > 1 else "failing_once")
    ctx.count("torn_writes", o.torn > 0)
    ctx.distinct("failed_where", [K.KINDS[o.kind], os.path.splitext(o.where)[1], errno.errorcode[error], span > 1])


def faults(ctx, rng, proj, args, k, history):
    """a run with failing effects, perhaps its repetition with others, and the one that completes"""
    for _ in range(rng.choice([1, 1, 1, 2])):
        permille, error, span = rng.choice([0, 0, 1, 300, 700, 999]), rng.choice(ERRORS), rng.choice(SPANS)
        par = G.parallel(args)
        before, pre, had = proj.snapshots(), K.records(proj, True), dict(proj.values)
        was_ok = {x for x, r in K.records(proj, False) if r == "OK"}
        flags, sel = P.split_args(args)
        todo = [x for x in P.choose(proj, sel, "-r" in flags) if not ("-c" in flags and dict(pre).get(x) == "OK")]
        o = faulty(proj, args, k, permille, error, span)
        history.append(whole(proj, o, args, k, permille, error, span))
        if o.faults:
            count(ctx, o, span, error)
            ctx.count("of_parallel_runs", par)
        else:
            ctx.count("runs_that_ended_before")
        ctx.nontrivial([proj.spec, proj.behave, history])

        def bad(why):
            ctx.violation(f"{why}, after failing effects ({history[-1]})", spec=proj.spec, behaviours=proj.behave, history=history,
                          records_before=pre, cases=P.slurp(os.path.join(proj.out, "cases.txt")) if os.path.exists(os.path.join(proj.out, "cases.txt")) else None,
                          state=o.state, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
            return False

        why = left_behind(o)
        if why:
            return bad(why)
        got, now = K.records(proj, True), proj.snapshots()
        have, torn = K.stored(proj)
        raised = o.state[0]["raised"]
        begun = [proj.bykey[x["case"]].name for x in o.events if x["ev"] == "start"]
        ended = {proj.bykey[x["case"]].name for x in o.events if x["ev"] == "end"}
        left = [x for x in pre if x[0] not in todo]
        ctx.count("kept_records_checked", len(left))
        if got != pre and got[:len(left)] != left:
            return bad(f"the records were {pre}, and those of cases that are not run {left}, but are {got}")
        # the records of this run, if there are any
        new = got[len(left):] if got[:len(left)] == left and not (got == pre and raised and not begun) else []
        if len(dict(got)) < len(got):
            return bad(f"a case is recorded twice: {got}")
        order = [n for n, r in new]
        order += [n for n in (G.topological(proj, todo) if par else todo) if n not in order]
        plain = P.expect_run_on(proj, args, (), order, before, pre)
        # what did not come to its end, or failed by the failing effects
        forced = {n: have.get(n) for n in todo if dict(new).get(n) is None or dict(new)[n] == "FAIL" and plain.results.get(n) != "FAIL"}
        if not o.faults:
            forced = {}
        e = P.expect_run_on(proj, args, (), order, before, pre, forced)
        failed = [n for n in forced if dict(new).get(n) == "FAIL" and e.raw.get(n) == "FAIL"]
        direct = [n for n in failed if not any(x in forced for x in ancestors(proj, n))]
        if len(direct) > o.faults:
            return bad(f"{direct} are recorded FAIL")
        for n, r in new:
            if n in todo and n not in forced and e.results.get(n) != r:
                if par and raised and r == "DIFF" == e.raw.get(n) and now.get(n + ".md") == before.get(n + ".md"):
                    # it ended, but has not been reviewed
                    ctx.count("not_reviewed")
                    continue
                return bad(f"{n} is recorded {r} instead of {e.results.get(n)}")
        if not par:
            for n in begun[:-1]:
                ctx.count("ended_cases_checked")
                if n not in dict(new):
                    return bad(f"{n} ended before {begun[-1]} began, but is not recorded: {got}")
        complete = set(todo) <= set(dict(new)) or "-f" in flags
        if o.rc == 0:
            ctx.count("successes")
            wrong = [n for n in todo if dict(new).get(n) != "OK"]
            if wrong or plain.rc != 0:
                return bad(f"the status is 0, but {wrong} are not recorded OK")
        else:
            ctx.count("failures")
            if complete and all(r == "OK" for n, r in new) and not raised:
                return bad(f"the status is {o.rc}, although all is recorded OK and no error is raised")
            if not complete and not raised:
                return bad(f"the status is {o.rc} and no error is raised, but {sorted(set(todo) - set(dict(new)))} are not recorded")
        for c in proj.cases:
            old, x = before.get(c.name + ".md"), now.get(c.name + ".md")
            fresh = [old]
            if c.name in todo and flags & {"-a", "-u"} and c.name in begun:
                fresh += [t.encode() for t in (e.texts.get(c.name), plain.texts.get(c.name)) if t is not None]
            if x not in fresh:
                return bad(f"the snapshot {c.name}.md is {x!r:.300}, neither the old {old!r:.300} nor the new {fresh[1:]!r:.300}")
            ctx.count("snapshots_old" if x == old else "snapshots_new")
            if dict(new).get(c.name) == "OK" and c.name in todo:
                # ignored text may differ if nothing is accepted
                unreviewed = par and raised and plain.raw.get(c.name) == "OK" and x == old
                if x is None or c.name in e.accepted and x.decode() != e.texts[c.name] and not unreviewed:
                    return bad(f"{c.name} is recorded OK, but its snapshot is {x!r:.300}")
            if len(fresh) == 1 and not (flags & {"-a", "-u"}):
                a = {y: v for y, v in before.items() if y.startswith(c.name + "/")}
                b = {y: v for y, v in now.items() if y.startswith(c.name + "/")}
                if a != b:
                    return bad(f"the snapshot files of {c.name}, which is not accepted, are {sorted(b)} instead of {sorted(a)}")
        for n, r in K.records(proj, False):
            if r != "OK":
                continue
            ctx.count("ok_records_checked")
            if n in dict(new):
                if n not in ended and n not in was_ok:
                    return bad(f"{n} is recorded OK, but did not end")
                if have.get(n) != plain.values.get(n) and n in ended:
                    return bad(f"{n} is recorded OK, but the result stored is {have.get(n, 'none or unreadable')} instead of {plain.values.get(n)}")
        for n, v in have.items():
            if v != had.get(n) and not (n in ended and v == plain_value(proj, n)):
                return bad(f"the stored result of {n} is {v}, neither the old {had.get(n)} nor the new {plain_value(proj, n)}")
        for n in torn:
            return bad(f"the stored result of {n} is unreadable")
        proj.values = have
        k = rng.randint(1, 40)
        if rng.random() < 0.3:
            args = K.arguments(rng, proj)
    return K.recover(ctx, rng, proj, args, history)


def plain_value(proj, n):
    b = proj.behave.get(proj.by[n].key, {})
    return rt.canon(rt.make(b["ret"]) if "ret" in b else None)


def ancestors(proj, n):
    rv, left = set(), list(proj.by[n].deps)
    while left:
        x = left.pop()
        if x not in rv:
            rv.add(x)
            left += proj.by[x].deps
    return rv


def reviews(ctx, rng, proj, i, history):
    """the writes of a review, or of the forgetting, of the records of a run fail"""
    o, e, go = G.check_step(ctx, proj, [] + rng.choice([[], [], ["-p2"]]), ASPECTS, history=history)
    if not go:
        return
    forget = rng.random() < 0.35
    sel = G.selection(rng, proj, p_all=0.5)
    if forget:
        args, script = ["--forget"], []
    else:
        args = rng.choice([["-w"], ["--review"]]) + rng.choice([["-a"], ["-a"], ["-a", "-u"], ["-u"], ["-a", "-f"], ["-a", "-c"], ["-i"], ["-I", "-c"]])
        script = [rng.choice(["a", "a", "c", "c"]) for _ in proj.cases] * 2 if set(args) & {"-i", "-I"} else []
        script += ["c"] * len(script)
    args = args + sel
    pre, before, had = proj.records(), proj.snapshots(), dict(proj.values)
    if forget:
        e, texts = P.Expect(), {}
        chosen = P.choose(proj, sel or ["test", "book"], False)
        e.accepted, e.records, e.rc = [], [r for r in pre if r[0] not in chosen], 0
    else:
        e, texts = G.expect_review(proj, args, script, pre)
    stdin = "\n".join(script) + "\n" if script else ""
    values = K.save(proj)
    o = faulty(proj, args, 0, 0, errno.EIO, 1, stdin)
    ks = list(range(1, o.effects + 1))
    rng.shuffle(ks)
    for k in ks[:5 if ctx.quick else 40]:
        K.restore(proj, values)
        permille, error, span = rng.choice([0, 0, 1, 300, 700, 999]), rng.choice(ERRORS), rng.choice(SPANS)
        o = faulty(proj, args, k, permille, error, span, stdin)
        now, got = proj.snapshots(), K.records(proj, True)
        h = history + [[whole(proj, o, args, k, permille, error, span), script]]
        ctx.nontrivial([proj.spec, proj.behave, h])
        if o.faults:
            count(ctx, o, span, error)
            ctx.count("forgets" if forget else "reviews")
        why = left_behind(o)
        if why:
            pass
        elif o.started:
            why = f"it ran {o.started}"
        elif got not in (pre, e.records) or K.records(proj, False) != got:
            why = f"the records are {got}, neither the old {pre} nor the new {e.records}"
        elif K.stored(proj) != (had, []):
            why = f"the stored results are {K.stored(proj)} instead of {had}"
        elif o.rc == 0 and (got != e.records or e.rc != 0):
            why = f"the status is 0, but the records are {got} instead of {e.records}"
        elif o.rc != e.rc and not o.state[0]["raised"]:
            why = f"the status is {o.rc} instead of {e.rc} and no error is raised"
        for c in proj.cases:
            old, x = before.get(c.name + ".md"), now.get(c.name + ".md")
            new = texts[c.name][0] if c.name in e.accepted else old
            if not why and x not in (old, new):
                why = f"the snapshot {c.name}.md is {x!r:.300}, neither the old {old!r:.300} nor the new {new!r:.300}"
            if not why and got == e.records != pre and x != new:
                why = f"{c.name} is recorded as accepted, but its snapshot is {x!r:.300} instead of {new!r:.300}"
            ctx.count("snapshots_old" if x == old else "snapshots_new")
            if not why and c.name not in e.accepted:
                a = {y: v for y, v in before.items() if y.startswith(c.name + "/")}
                b = {y: v for y, v in now.items() if y.startswith(c.name + "/")}
                if a != b:
                    why = f"the snapshot files of {c.name}, which is not accepted, are {sorted(b)} instead of {sorted(a)}"
        if why:
            ctx.violation(f"{why}, after failing effects of a review ({h[-1]})", spec=proj.spec, behaviours=proj.behave, history=h,
                          records_before=pre, state=o.state, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
            return
        if not K.recover(ctx, rng, proj, ["*"], list(h)):
            return
    ctx.sample({"case": i, "spec": proj.spec, "args": args, "effects": o.effects})
