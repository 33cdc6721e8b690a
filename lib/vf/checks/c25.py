"""Setup and teardown bracket what they should."""
from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 90, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}

PROCESS = '''
from vf import rt


def process_setup_teardown():
    yield from rt.bracket("process")()
'''


def prepare(ctx):
    if ctx.shard != 0:
        return
    d = ctx.newdir()
    try:
        spec = {"units": [{"kind": "func", "fn": "f0", "name": "test/a", "deps": []}], "order": ["test/a"],
                "tail": TAIL}
        proj = P.Project(d, spec)
        proj.behave = {"f0": {"lines": ["one"]}}
        o = proj.invoke(["-p2"], quiesce=8)
        if not o.started and proj.records() == [("test/a", "FAIL")]:
            ctx.violation("decorate_tests: in a parallel run no test runs", key="decorate-tests-parallel")
    finally:
        ctx.drop(d)


TAIL = ["from booktest.testsuite import decorate_tests",
        "all_tests = decorate_tests(bt.setup_teardown(rt.bracket('all')), all_tests)"]


def decorate(rng, units):
    """adds setup_teardown decorators; returns {ref: (outer, inner)} of their names, outermost first"""
    rv = {}
    for u in units:
        for x in u["methods"] if u["kind"] == "class" else [u]:
            ref = f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"]
            n = 0
            for where in ("deco", "deco_in"):
                names = []
                lines = []
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    a = f"{ref}#{n}"
                    n += 1
                    if rng.random() < 0.2:
                        b = f"{ref}#{n}"
                        n += 1
                        # the first one of combine_decorators is the innermost
                        lines.append(f"bt.combine_decorators(bt.setup_teardown(rt.bracket({b!r})), bt.setup_teardown(rt.bracket({a!r})))")
                        names += [a, b]
                    else:
                        lines.append(f"bt.setup_teardown(rt.bracket({a!r}))")
                        names.append(a)
                x[where] = lines
                rv.setdefault(ref, []).append(names)
    return rv


def stream(proj, c, deco, behave, missing, whole):
    """(events of one executed case, does it end without an error of its decorators, did the body run)"""
    outer, inner = deco[c.ref]
    stack = (["all"] if whole else []) + outer + [None] + inner
    out = []
    opened = []
    ran, error = False, False
    for who in stack:
        if who is None:
            # where the dependencies are injected
            if missing:
                error = True
                break
            continue
        out.append(("setup", who))
        if behave.get(who, {}).get("setup"):
            error = True
            break
        opened.append(who)
    else:
        out += [("start", c.key), ("end", c.key)]
        ran = True
    for who in reversed(opened):
        out.append(("teardown", who))
        if behave.get(who, {}).get("teardown"):
            error = True
    return out, not error, ran


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        spec = G.spec(rng, n=rng.randint(1, 7), dep=rng.choice([0, 0.3, 0.6]), res=0.1)
        deco = decorate(rng, spec["units"])
        whole = rng.random() < 0.25
        if whole:
            spec["tail"] = TAIL
        process = rng.random() < 0.75
        extra = {}
        if process:
            extra[rng.choice(["test/__booktest__.py", "test/sub/__booktest__.py", "book/__booktest__.py"])] = PROCESS
        proj = P.Project(d, spec, extra=extra)
        history = []
        for step in range(rng.randint(1, 4)):
            G.change(rng, proj, step, p=0.5, fail=rng.choice([0, 0.3, 0.7]), files=0)
            for a, b in deco.values():
                for who in a + b:
                    proj.behave[who] = {}
                    if rng.random() < 0.08:
                        proj.behave[who] = {rng.choice(["setup", "teardown"]): True, "n": rng.randrange(100)} if rng.random() < 0.75 else {"setup": "empty"}
            proj.behave["process"] = {}
            if process and rng.random() < 0.12:
                proj.behave["process"] = dict(rng.choice([{"setup": True}, {"setup": "empty"}, {"teardown": True}]), n=rng.randrange(100))
            args = rng.choice([[], ["-a"], ["-c"], ["-f"], ["-r"], ["-u"]])
            args = list(args)
            if rng.random() < 0.4 and not whole and "-f" not in args:
                args.append(rng.choice(["-p1", "-p2", "-p4"]))
            args += G.selection(rng, proj)
            if not one(ctx, proj, args, deco, whole, process, history):
                return
        ctx.sample({"case": i, "spec": spec, "history": history})
    finally:
        ctx.drop(d)


def one(ctx, proj, args, deco, whole, process, history):
    flags, sel = P.split_args(args)
    par = G.parallel(args)
    pre = proj.records()
    snaps = proj.snapshots()
    chosen = P.choose(proj, sel, "-r" in flags)
    todo = [n for n in chosen if not ("-c" in flags and dict(pre).get(n) == "OK")]
    blocks, results = [], {}
    values = dict(proj.values)
    broken = process and bool(proj.behave["process"].get("setup"))
    ends = process and bool(proj.behave["process"].get("teardown"))
    if broken:
        # each job has a process setup of its own
        ctx.count("failing_process_setups")
        results = {n: "FAIL" for n in todo} if par else {}
        blocks = [[] for _ in todo] if par else []
        todo = []
    ctx.count("failing_process_teardowns", ends)
    from vf import rt
    for n in G.topological(proj, todo) if par else todo:
        c = proj.by[n]
        b = proj.behave[c.key]
        missing = any(x not in values for x in c.deps)
        evs, fine, ran = stream(proj, c, deco, proj.behave, missing, whole)
        blocks.append(evs)
        snap = snaps.get(n + ".md")
        res = P.outcome(b, None if snap is None else snap.decode(), ()) if fine and ran else "FAIL"
        if res != "FAIL":
            values[n] = rt.canon(rt.make(b["ret"]) if "ret" in b else None)
        if res == "DIFF" and "-a" in flags:
            res = "OK"
        results[n] = res
        ctx.count("tests_" + ("failing" if res == "FAIL" else "passing"))
        if not fine and ran:
            ctx.count("failing_teardowns")
        if not ran and not missing:
            ctx.count("failing_setups")
        ctx.count("brackets", sum(1 for e in evs if e[0] == "setup"))
        if "-f" in flags and res != "OK":
            break
    o = proj.invoke(args, quiesce=8)
    history.append([args, {k: v for k, v in proj.behave.items() if v.get("setup") or v.get("teardown")}])
    ctx.count("parallel_runs" if par else "serial_runs")
    ctx.nontrivial([proj.spec, proj.behave, args])
    got = [(e["ev"], e.get("who") or e.get("case")) for e in o.events]
    bound = [("setup", "process")], [("teardown", "process")] if not broken else []
    why = None
    if o.hung:
        why = "the run does not end"
    elif o.rc not in ((1,) if (broken or ends) and not par else (255,) if blocks and broken else (0, 255)):
        why = f"the run ended with status {o.rc}: {o.stderr[-500:]}"
    elif not par:
        want = [x for b in blocks for x in b]
        if process:
            want = bound[0] + want + bound[1]
        if got != want:
            why = f"the events are {got} instead of {want}"
    else:
        if process:
            want = sorted(bound[0] + b + bound[1] for b in blocks)
        else:
            want = sorted(x for b in blocks for x in b)
        found = []
        for pid in sorted({e["pid"] for e in o.events}):
            for e in o.events:
                if e["pid"] != pid:
                    continue
                x = (e["ev"], e.get("who") or e.get("case"))
                if not process:
                    found.append(x)
                elif x == bound[0][0] or not found or not found[-1][0] == pid:
                    found.append((pid, [x]))
                else:
                    found[-1][1].append(x)
        if process:
            found = [x[1] for x in found]
        if sorted(found) != want:
            extra = [x for x in found if x not in want]
            lack = [x for x in want if x not in found]
            why = f"the events of the jobs have {extra[:3]} instead of {lack[:3]}"
    if not why:
        now = {n: r for n, r in proj.records() if n in results}
        if now != results:
            why = f"the results are {now} instead of {results}"
        elif broken and not par and proj.records() != pre:
            why = f"the records are {proj.records()} instead of {pre}, though no test has run"
        elif broken and proj.snapshots() != snaps:
            why = "the snapshots have changed, though no test has run"
    if why:
        ctx.violation(f"{why} (arguments {args})", spec=proj.spec, behaviours=proj.behave, history=history,
                      process=process, events=got, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
        return False
    proj.values = values
    return True
