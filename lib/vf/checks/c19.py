"""Interactive decisions and review do what the user answers."""
import os

from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 90, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = ("alive", "asked", "records", "results", "exit", "snapshots", "executed", "tools")
TOOLS = {"v": "md_viewer", "l": "log_viewer", "d": "diff_tool", "D": "fast_diff_tool"}
SCRIPT = '''tool=$1; shift
printf '%s' "$tool" >> "$VF_TOOLS"
for a in "$@"; do printf '\\t%s' "$a" >> "$VF_TOOLS"; done
printf '\\n' >> "$VF_TOOLS"
exit $((RANDOM % 2))
'''


def parallel_quit(ctx, rng, d):
    """the user quits a parallel run: what the other jobs had done by then is recorded as it is"""
    proj = P.Project(d, G.spec(rng, n=rng.randint(2, 8), dep=0.15))
    G.change(rng, proj, 0, p=1, fail=0)
    o, e, go = G.check_step(ctx, proj, ["-a", "*"], ASPECTS)
    if not go:
        return
    G.change(rng, proj, 1, p=rng.choice([0.3, 0.7]), fail=rng.choice([0, 0.3]))
    for c in proj.cases:
        proj.behave[c.key]["mid"] = [rng.choice([0, 0, 0.01, 0.04])]
    flag = rng.choice(["-i", "-I"])
    args = [rng.choice(["-p1", "-p2", "-p4"]), flag] + rng.choice([[], ["-f"]]) + ["*"]
    script = [rng.choice(["c", "c", "a", "v"]) for _ in range(rng.choice([0, 0, 1, 2, 4]))] + ["q"]
    before, pre = proj.snapshots(), proj.records()
    o = proj.invoke(args, stdin="\n".join(script) + "\n", quiesce=8, perturb=rng.random() if rng.random() < 0.5 else None)
    after, records = proj.snapshots(), proj.records()
    ctx.count("parallel_quits")

    def bad(why):
        ctx.violation(f"{why} (arguments {args}, answers {script})", spec=proj.spec, behaviours=proj.behave, stdout=o.stdout[-2500:],
                      stderr=o.stderr[-1000:], records_before=pre, records=records)

    if o.hung or o.rc not in (0, 255) or (o.crashed and "EOFError" not in o.stderr):
        return bad(f"the run ended with status {o.rc}: {o.stderr[-300:]}")
    if "EOFError" in o.stderr:
        if o.stdout.count(P.PROMPT) > len(script):
            return bad("the user is asked again after quitting")
        ctx.count("answers_ran_out")
        return
    names = [n for n, _ in records]
    if len(set(names)) != len(names) or not set(names) <= set(proj.by):
        return bad(f"the records are {records}")
    ended = {proj.bykey[x["case"]].name for x in o.events if x["ev"] == "end"}
    order = names + [n for n in G.topological(proj, [c.name for c in proj.cases]) if n not in names]
    e = P.expect_run_on(proj, args[:1] + ["*"], ["c"] * 300, order, before, pre)
    asked, accepted, left, quit_, want = 0, [], list(script), False, {}
    for n in names:
        res = e.raw[n]
        if not quit_ and (flag == "-I" or res != "OK"):
            while left:
                a = left.pop(0)
                asked += 1
                if a == "a" and res != "FAIL":
                    accepted.append(n)
                    res = "OK"
                    break
                if a in ("c", "q"):
                    quit_ = a == "q"
                    break
        want[n] = res
        if "-f" in args and res != "OK":
            quit_ = True
    if dict(records) != want:
        return bad(f"the records are {records} instead of {want}")
    if o.stdout.count(P.PROMPT) != asked:
        return bad(f"the user is asked {o.stdout.count(P.PROMPT)} times instead of {asked}")
    if not set(names) <= ended | {n for n in names if want[n] == "FAIL"}:
        return bad(f"recorded {names}, but only {sorted(ended)} ran")
    e.accepted = accepted
    why = P.same_books(proj, P.apply_accept(proj, before, e), after, ran=e.run)
    if why:
        return bad(f"accepted {accepted}, but the snapshots differ from that: {why[:6]}")
    if (o.rc == 0) != all(r == "OK" for r in want.values()):
        return bad(f"the exit status is {o.rc} for {want}")
    rows, counts, listed = P.summary(o.stdout)
    if (listed or []) != [n for n in names if want[n] != "OK"]:
        return bad(f"the printed failures are {listed} instead of those of {want}")
    ctx.count("recorded_after_quit", len(names) - (asked if flag == "-I" else 0))
    ctx.count("not_recorded", len(proj.cases) - len(names))
    ctx.nontrivial([proj.spec, proj.behave, args, script, records])
    # -c runs exactly what is not recorded as OK
    proj.values.update({n: v for n, v in e.values.items() if n in ended and e.raw[n] != "FAIL"})
    G.check_step(ctx, proj, ["-c", "*"], ASPECTS)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        if rng.random() < 0.2:
            parallel_quit(ctx, rng, d)
            return
        proj = P.Project(d, G.spec(rng, n=rng.randint(1, 6), dep=rng.choice([0, 0.3])))
        script = os.path.join(d, "tool.sh")
        with open(script, "w") as f:
            f.write(SCRIPT)
        log = os.path.join(d, "tools")
        env = {"VF_TOOLS": log}
        for k, t in TOOLS.items():
            if rng.random() < 0.8:
                env["BOOKTEST_" + t.upper()] = f"bash {script} {k}"
        history = []
        for step in range(rng.randint(2, 5)):
            G.change(rng, proj, step, p=rng.choice([0.2, 0.6]), fail=rng.choice([0, 0.2, 0.5]), files=0.3)
            if os.path.exists(log):
                os.unlink(log)
            snaps = {c.name: proj.snap_text(c.name) is not None for c in proj.cases}
            review = os.path.exists(os.path.join(proj.out, "metrics.json")) and rng.random() < 0.45
            args = [rng.choice(["-i", "-i", "-I"])]
            args += rng.choice([[], [], [], ["-c"], ["-v"], ["-f"]])
            # accepted without asking, or whatever the user answers
            args += rng.choice([[]] * 4 + [["-a"], ["-u"]])
            args += G.selection(rng, proj, p_all=0.6)
            if rng.random() < 0.1:
                args = [a for a in args if a not in ("-i", "-I")]
            par = not review and rng.random() < 0.2 and "-f" not in args
            if par:
                args = [rng.choice(["-p1", "-p2", "-p3"])] + args
            answers = script_of(rng, par)
            if review:
                o, e, bad = G.check_review(ctx, proj, ["-w"] + args, answers, ASPECTS, history, env=env)
                go = not bad
                ctx.count("reviews")
            else:
                o, e, go = G.check_step(ctx, proj, args, ASPECTS, answers, history=history, env=env)
                ctx.count("parallel_runs" if par else "serial_runs")
            for a in e.answered:
                ctx.count("answer_" + (a if a in "acqvldD" and a else "other"))
            ctx.count("asked_cases", len(e.asked))
            ctx.count("asked_of_failed_cases", sum(r == "FAIL" for _, r in e.asked))
            ctx.count("accepted", len(e.accepted))
            ctx.nontrivial([proj.spec, proj.behave, args, e.answered, o.pre])
            why = tools(proj, e, log, env, snaps) if go else None
            if why:
                ctx.violation(f"tools: {why} (arguments {args})", history=history, **G.describe(proj, args, answers, o, e))
                return
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": [[a, s[:12]] for a, s in history], "records": proj.records()})
    finally:
        ctx.drop(d)


def script_of(rng, par):
    kind = rng.random()
    pool = "ac" if kind < 0.3 else "aaccvldDx" if kind < 0.7 else ["a", "A", "accept", "", "yes", "c", "C", "v", "d", "l", "D", "Q"]
    q = 0 if par else rng.choice([0, 0.05, 0.15])
    rv = [rng.choice(pool) if rng.random() >= q else "q" for _ in range(70)]
    return rv + ["c"] * 40


def tools(proj, e, log, env, snaps):
    """the tools were called for the shown case, with its files"""
    got = []
    if os.path.exists(log):
        with open(log) as f:
            got = [ln.split("\t") for ln in f.read().split("\n")[:-1]]
    want = []
    gone = set()
    for k, n in e.tools:
        if "BOOKTEST_" + TOOLS[k].upper() not in env:
            continue
        exp, out, lg = f"books/{n}.md", f"books/.out/{n}.md", f"books/.out/{n}.log"
        if k == "l":
            want.append([k, lg])
        elif k == "v":
            want.append([k] + ([exp] if snaps[n] else []) + [out])
        else:
            want.append([k, exp, out])
    got = [[x[0]] + [os.path.normpath(y) for y in x[1:]] for x in got]
    if got != want:
        return f"called {got} instead of {want}"
    return None
