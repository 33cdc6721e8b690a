"""Runs interrupted (Ctrl-C) at any line that the main process executes."""
import json
import os
import signal
import sys
import threading
import time

from vf import proj as P
from vf import projgen as G
from vf import rt
from vf.checks.c14 import ASPECTS, arguments, records, restore, save, stored

PLAN = {"quick": {"cases": 1000, "seconds": 40}, "thorough": {"cases": 100000, "seconds": 900}}
SETUP = '''
from vf import rt


def process_setup_teardown():
    rt.log(ev="process setup")
    yield
    rt.log(ev="process teardown")
'''
TOOL = 3


def armed(args, at, delay, group, counts):
    """the command, interrupted when its main thread reaches the at-th line (0: never), or after a delay"""
    def call():
        import booktest.cli
        me = os.getpid()
        m = sys.monitoring
        state = [0]
        took = [0]
        bodies = []
        # the signal comes from another process, at the line or soon after it
        ask, answer = os.pipe(), os.pipe()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                os.close(ask[1])
                if delay is not None or os.read(ask[0], 1):
                    time.sleep(delay or 0)
                    if delay is not None:
                        rt.log(ev="interrupt", where="any")
                    os.killpg(0, signal.SIGINT) if group else os.kill(me, signal.SIGINT)
                    rt.log(ev="sent")
                    os.write(answer[1], b"x")
            finally:
                os._exit(0)
        # the pools and threads of a parallel run are to end as well
        import multiprocessing
        inner = (threading.__file__, os.path.dirname(multiprocessing.__file__) + os.sep) if G.parallel(args) else ()
        base = os.path.dirname(os.path.abspath(booktest.cli.__file__)) + os.sep
        tests = os.path.abspath("test") + os.sep

        def line(code, n):
            f = code.co_filename
            if inner:
                if not f.startswith(inner):
                    return m.DISABLE
            elif not (f.startswith(base) or f.startswith(tests) or f == rt.__file__):
                return m.DISABLE
            if os.getpid() == me and threading.current_thread() is threading.main_thread():
                state[0] += 1
                if code.co_name == "acts" and f == rt.__file__:
                    bodies.append(state[0])
                if state[0] == at:
                    # a handler that runs in here would run where Python runs none
                    m.register_callback(TOOL, m.events.LINE, None)
                    m.set_events(TOOL, 0)
                    rt.log(ev="interrupt", where=os.path.basename(f) + ":" + code.co_name)
                    os.write(ask[1], b"x")

        # Python itself drops what is raised in a finalizer
        sys.unraisablehook = lambda x: rt.log(ev="late" if x.exc_type is KeyboardInterrupt else "ignored", what=repr(x.exc_value), where=repr(x.object))
        signal.signal(signal.SIGINT, signal.default_int_handler)
        m.use_tool_id(TOOL, "interrupts")
        if delay is None:
            m.register_callback(TOOL, m.events.LINE, line)
            m.set_events(TOOL, m.events.LINE)
        begin = time.monotonic()
        try:
            rv = booktest.cli.main(list(args))
            m.set_events(TOOL, 0)
            took[0] = time.monotonic() - begin
            if at and state[0] >= at or delay is not None:
                try:
                    os.read(answer[0], 1)
                    time.sleep(0)
                except KeyboardInterrupt:
                    # it came when all was over
                    rt.log(ev="late")
            return rv
        except KeyboardInterrupt:
            rt.log(ev="interrupted")
            raise
        finally:
            m.set_events(TOOL, 0)
            with open(counts, "w") as f:
                json.dump([state[0], took[0], bodies], f)
    return call


def attack(proj, args, at, group, script, delay=None):
    counts = os.path.join(proj.root, "counts")
    if os.path.exists(counts):
        os.remove(counts)
    o = proj.invoke(args, stdin="".join(x + "\n" for x in script), quiesce=8 if G.parallel(args) else 4, call=armed(args, at, delay, group, counts))
    o.lines, o.took, o.bodies = json.loads(P.slurp(counts)) if os.path.exists(counts) else [0, 0, []]
    o.cut = [e for e in o.events if e["ev"] == "interrupt"]
    return o


def prepare(ctx):
    rng = ctx.rng(-1)
    for n in range(2 if ctx.quick else 30):
        args = rng.choice([["-p2"], ["-p3", "-a"], ["-p2", "-a", "--cov"]]) if n or ctx.shard % 2 else ["-a"]
        asy, after = rng.random() < 0.5, rng.choice([None, None, rng.uniform(0.1, 2)])
        for again in range(5):
            # see interrupt() of those that are lost
            if real(ctx, args, asy, after, again == 4) != "lost":
                break
            ctx.count("lost_interrupts")


def real(ctx, args, asy, after, last):
    """the real command with spawned workers, interrupted as by a terminal while a test runs, or after some time"""
    d = ctx.newdir()
    try:
        units = [{"kind": "func", "fn": f"f{n}", "name": f"test/{n}", "async": asy and n == 1, "deps": []} for n in range(4)]
        proj = P.Project(d, {"units": units, "order": [f"test/{n}" for n in range(4)]})
        proj.behave = {"f0": {"lines": ["zero"]}, "f1": {"lines": ["one"], "mid": [1.2], "intr": after is None}, "f2": {"lines": ["two"], "pre": [0.4]}, "f3": {"lines": ["three"]}}
        o = proj.invoke(args, real=True, quiesce=8, sigint=after)
        ctx.count("real_interrupts")
        ended = {proj.bykey[e["case"]].name for e in o.events if e["ev"] == "end"} - {proj.bykey[e["case"]].name for e in o.events if e["ev"] == "cut"}
        recs = dict(proj.records())
        sent = [e["t"] for e in o.events if e["ev"] == "sent"]
        over = [e["t"] for e in o.events if e["ev"] == "end" and e["case"] == "f1"]
        if not sent or over and over[0] < sent[0] + 200000000:
            # not in the test, as the machine is slow
            after = after or 0
        want = "OK" if "-a" in args else "DIFF"
        complete = recs == {f"test/{n}": want for n in range(4)}
        why = None
        if o.hung:
            why = "the interrupted run does not end"
        elif o.rc == 0 and complete and after is None and not last:
            return "lost"
        elif o.rc == 0 and not (complete and after is not None):
            why = "the interrupted run ends with status 0"
        # one that ends just before the interrupt may not be reviewed yet
        elif not set(recs) <= ended or set(recs.values()) - {want, "DIFF"}:
            why = f"the records are {recs}, ended {sorted(ended)}"
        elif not G.parallel(args) and after is None and recs != {"test/0": want}:
            why = f"the records are {recs}, where test/0 had ended before"
        if why:
            ctx.violation(f"{why} (real command, arguments {args}, interrupted {'in a test' if after is None else f'after {after} s'})",
                          events=o.events, stdout=o.stdout[-1500:], stderr=o.stderr[-2500:])
            return
        proj.behave["f1"] = {"lines": ["one"]}
        o = proj.invoke(["-c", "-a"], real=True)
        if o.rc != 0 or sorted(proj.records()) != [(f"test/{n}", "OK") for n in range(4)]:
            ctx.violation(f"continuing after an interrupt gives {o.rc}, {proj.records()} (real command, arguments {args})", stderr=o.stderr[-2500:])
    finally:
        ctx.drop(d)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        spec = G.spec(rng, n=rng.randint(1, 6), dep=rng.choice([0.2, 0.6]), asy=rng.choice([0, 0.3, 1]))
        brackets = rng.random() < 0.4
        for u in spec["units"]:
            for x in u["methods"] if u["kind"] == "class" else [u]:
                if brackets and rng.random() < 0.4:
                    x["deco"] = ["bt.setup_teardown(rt.bracket('s1'))"]
        proj = P.Project(d, spec, {"test/__booktest__.py": SETUP} if rng.random() < 0.5 else None)
        history = []
        for step in range(rng.randint(0, 2)):
            G.change(rng, proj, step, p=0.5, fail=rng.choice([0, 0.2]))
            args = rng.choice([["-a"], ["-a", "-u"], []]) + ["*"]
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history)
            if not go:
                return
        G.change(rng, proj, 9, p=0.6, fail=rng.choice([0, 0.2]))
        for c in proj.cases:
            if rng.random() < 0.6:
                proj.behave[c.key]["mid"] = [rng.choice([0.001, 0.005])]
            if rng.random() < 0.6:
                proj.behave[c.key]["post"] = [rng.choice([0.001, 0.005])]
        args = arguments(rng, proj)
        script = []
        if not G.parallel(args) and rng.random() < 0.25:
            args = [rng.choice(["-i", "-i", "-I"])] + args
            script = [rng.choice("aacq" if rng.random() < 0.1 else "aac") for _ in range(40)]
        values = save(proj)
        o = attack(proj, args, 0, False, script)
        assert not o.cut
        total, took, bodies = o.lines, o.took, o.bodies
        ctx.count("lines_of_whole_runs", total)
        if not total:
            ctx.unclear("no lines are counted")
            return
        for _ in range(8 if ctx.quick else 40):
            at = rng.randint(1, total) if G.parallel(args) and rng.random() < 0.5 else rng.uniform(0, took) if G.parallel(args) else rng.choice(bodies) if bodies and rng.random() < 0.4 else rng.randint(1, total)
            # workers that are forked, not spawned, cannot take an interrupt while they start
            group = rng.random() < 0.5 and not G.parallel(args)
            for again in range(5):
                restore(proj, values)
                rv = interrupt(ctx, rng, proj, args, script, at, group, list(history), again == 4)
                if rv != "lost":
                    break
                # Python drops an interrupt that comes while it flushes, say
                ctx.count("lost_interrupts")
            if not rv:
                return
        ctx.sample({"case": i, "spec": spec, "args": args, "lines": total})
    finally:
        ctx.drop(d)


def interrupt(ctx, rng, proj, args, script, at, group, history, last):
    par = G.parallel(args)
    before, pre, had = proj.snapshots(), records(proj, True), dict(proj.values)
    was_ok = {x for x, r in pre if r == "OK"}
    flags, sel = P.split_args(args)
    todo = [x for x in P.choose(proj, sel, "-r" in flags) if not ("-c" in flags and dict(pre).get(x) == "OK")]
    e = P.expect_run_on(proj, args, script, G.topological(proj, todo) if par else None, before, pre)
    timed = isinstance(at, float)
    o = attack(proj, args, 0 if timed else at, group, script, at if timed else None)
    history.append([args, at, group, [x["where"] for x in o.cut]])
    ctx.count("interrupts" if o.cut else "runs_that_ended_before")
    ctx.count("interactive_runs", bool(script))
    ctx.nontrivial([proj.spec, proj.behave, history])

    def bad(why):
        ctx.violation(f"{why}, after an interrupt at {at} ({history[-1]})", spec=proj.spec, behaviours=proj.behave, history=history,
                      records_before=pre, cases=proj.records(), events=o.events[-40:], stdout=o.stdout[-1500:], stderr=o.stderr[-2500:])
        return False

    if o.hung:
        return bad("the run does not end")
    order = [proj.bykey[x["case"]].name for x in o.events if x["ev"] == "start"]
    ended = {proj.bykey[x["case"]].name for x in o.events if x["ev"] == "end"}
    recs = proj.records()
    known, should = dict(recs), dict(e.records)
    cut = {proj.bykey[x["case"]].name for x in o.events if x["ev"] == "cut"}
    ended -= cut
    if o.cut:
        late = any(x["ev"] == "late" for x in o.events)
        ctx.distinct("interrupted_where", o.cut[0]["where"])
        ctx.count("interrupts_of_parallel_runs", par)
        ctx.count("interrupts_of_groups", group)
        ctx.count("interrupts_in_tests", bool(cut))
        ctx.count("interrupts_after_the_run", late)
        if o.rc == 0 and not late:
            return "lost" if not last else bad("the interrupted run ends with status 0")
        if not par and not late:
            if not any(x["ev"] == "interrupted" for x in o.events):
                return "lost" if not last else bad("the interrupt is lost")
            sent = [x["t"] for x in o.events if x["ev"] == "sent"]
            later = [x for x in o.events if sent and x["ev"] == "start" and x["t"] > sent[0] + 10000000]
            if later:
                return "lost" if not last else bad(f"tests begin after the interrupt: {[x['case'] for x in later]}")
        if cut:
            if not any(x["ev"] == "interrupted" for x in o.events):
                return bad("a test is interrupted, but not the run")
            for what in ("process ", ""):
                n = [len([y for y in o.events if y["ev"] == what + z]) for z in ("setup", "teardown")]
                ctx.count("brackets_checked", n[0])
                if n[0] != n[1]:
                    return bad(f"{n[0]} {what}setups have {n[1]} teardowns")
            for n in cut:
                if known.get(n) is not None:
                    return bad(f"the interrupted {n} is recorded {known[n]}")
    now = proj.snapshots()
    for c in proj.cases:
        old, got = before.get(c.name + ".md"), now.get(c.name + ".md")
        new = e.texts[c.name].encode() if c.name in e.accepted else old
        if got != old and got != new:
            return bad(f"the snapshot {c.name}.md is {got!r:.300}, neither the old {old!r:.300} nor the new {new!r:.300}")
        ctx.count("snapshots_old" if got == old else "snapshots_new")
        if c.name not in e.accepted or c.name not in ended:
            a = {x: v for x, v in before.items() if x.startswith(c.name + "/") or x == c.name + ".md"}
            b = {x: v for x, v in now.items() if x.startswith(c.name + "/") or x == c.name + ".md"}
            if a != b:
                return bad(f"the snapshot files of {c.name}, which is not accepted, are {sorted(b)} instead of {sorted(a)}")
    if len(known) != len(recs):
        return bad(f"cases have several records: {recs}")
    if not par:
        for n in order[:-1]:
            ctx.count("ended_cases_checked")
            if known.get(n) != should.get(n):
                return bad(f"{n} ended {should.get(n)} before {order[-1]} began, but is recorded {known.get(n)}")
    have, torn = stored(proj)
    if torn:
        return bad(f"the stored results of {torn} cannot be read")
    touched = bool(order)
    for n, r in recs:
        if n in todo and (touched or known != dict(pre)):
            ctx.count("records_checked")
            if n not in ended and n in e.bodies and not (n in dict(pre) and dict(pre)[n] == r and not touched):
                return bad(f"{n} is recorded {r}, but it did not end")
            if n in ended and not par and r != should.get(n):
                return bad(f"{n} is recorded {r} instead of {should.get(n)}")
            if n in ended and r == "OK" and have.get(n) != e.values.get(n):
                return bad(f"{n} is recorded OK, but the result stored is {have.get(n)} instead of {e.values.get(n)}")
            if n in ended and r == "OK" and should.get(n) != "OK":
                return bad(f"{n} is recorded OK instead of {should.get(n)}")
        elif n not in todo and (n, r) not in pre:
            return bad(f"{n}, which was not to run, is recorded {r}")
    if touched:
        for n, r in pre:
            if n not in todo and known.get(n) != r:
                return bad(f"{n}, which was not to run, was {r} and is recorded {known.get(n)}")
    for n, v in have.items():
        if v != had.get(n) and not (n in ended and v == e.values.get(n)):
            return bad(f"the stored result of {n} is {v}, neither the old {had.get(n)} nor the new {e.values.get(n)}")
    proj.values = have
    # the run after it
    if rng.random() < 0.8:
        args = rng.choice([[], ["-c"], ["-c"], ["-c", "-a"], ["-a"]]) + rng.choice([[], ["-p2"]]) + \
            rng.choice([[a for a in args if not a.startswith("-")], ["*"], [rng.choice(proj.cases).name]])
    args = [a for a in args if a not in ("-i", "-I")]
    ctx.count("runs_after")
    return G.check_step(ctx, proj, args, ASPECTS, history=history)[2]
