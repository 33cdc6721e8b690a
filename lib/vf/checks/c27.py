"""Configuration layers and options apply exactly, and only to their own run."""
import os

from vf import proj as P
from vf import projgen as G
from vf import rt

PLAN = {"quick": {"cases": 220, "seconds": 40}, "thorough": {"cases": 20000, "seconds": 900}}
KEYS = ["diff_tool", "md_viewer", "log_viewer", "fast_diff_tool", "accept", "update", "verbose", "x", "my_key", "interactive", "fail_fast",
        "continue", "print_logs", "default_tests", "books_path", "parallel", "refresh_snapshots", "a.b", "key2"]
VALUES = ["1", "0", "", "True", "10", "01", "meld", "retext --preview", "a=b", "=", "k=v=w", "#no comment", "x # y", "test,book", "ä ö",
          "\"q q\"", "'", "$HOME", "%s", "1.0", "1 ", "{}", "a\tb", "\\n", ";", "0x0"]
PATHS = ("default_tests", "books_path", "test_paths")
OPTIONS = [(["-i"], "interactive", True), (["-I"], "always_interactive", True), (["-v"], "verbose", True), (["-L"], "print_logs", True),
           (["-f"], "fail_fast", True), (["-c"], "continue", True), (["-r"], "refresh_sources", True), (["-u"], "update", True),
           (["-a"], "accept", True), (["-p"], "parallel", True), (["-p1"], "parallel", 1), (["-p4"], "parallel", 4), (["-p16"], "parallel", "16"),
           (["--parallel-count", "5"], "parallel", 5), (["-s"], "complete_snapshots", True), (["-S"], "refresh_snapshots", True),
           (["--cov"], "coverage", True), (["-md-viewer", "x y=z"], "md_viewer", "x y=z"), (["-diff-tool", "1"], "diff_tool", "1"),
           (["-diff-tool", "my tool"], "diff_tool", "my tool")]
SETUP = {"diff_tool": "meld", "fast_diff_tool": "diff", "md_viewer": "retext --preview", "log_viewer": "less", "test_paths": "test,book,run",
         "default_tests": "test,book", "books_path": "books"}


def parse(v):
    return True if v == "1" else False if v == "0" else v


def layer(rng, keys):
    rv = []
    for _ in range(rng.choice([0, 0, 1, 2, 4, 7])):
        k = rng.choice(keys)
        # these three are paths, which on and off are not
        rv.append((k, rng.choice(["test", "book", "x y", "a=b", "ä", "#d", "other"] if k in PATHS else VALUES)))
    return rv


def file_text(rng, items):
    out = []
    for k, v in items:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            out.append(rng.choice(["", "  ", "# a comment", "#", f"#{k}=2", "# x=y", "\t"]))
        out.append(rng.choice(["", "", "", " "]) + f"{k}={v}" + rng.choice(["", "", "  "]))
    for _ in range(rng.choice([0, 1])):
        out.append(rng.choice(["", "# end"]))
    return rng.choice(["\n", "\n", "\n", "\r\n"]).join(out) + rng.choice(["\n", "\n", ""])


def put(path, text):
    if text is None:
        if os.path.exists(path):
            os.remove(path)
    else:
        with open(path, "w", newline="") as f:
            f.write(text)


def effective(home, local, env, options=()):
    rv = {}
    for items in (home, local):
        for k, v in items:
            rv[k] = parse(v.strip())
    for k, v in env:
        rv[k.lower()] = parse(v)
    for _, k, v in options:
        rv[k] = v
    return rv


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        k = rng.random()
        if k < 0.45:
            printed(ctx, rng, i, d)
        elif k < 0.6:
            setup(ctx, rng, i, d)
        elif k < 0.8:
            layered_run(ctx, rng, i, d)
        else:
            sequence(ctx, rng, i, d)
    finally:
        ctx.drop(d)


def layers(rng, proj, keys):
    """writes random layers, returns their items"""
    home, local = layer(rng, keys), layer(rng, keys)
    env = {}
    for k, v in layer(rng, keys):
        if "." in k:
            continue
        env["BOOKTEST_" + (k.upper() if rng.random() < 0.9 else k)] = v
    if len({k.lower() for k in env}) != len(env):
        env = {}
    put(os.path.join(proj.home, ".booktest"), file_text(rng, home) if home or rng.random() < 0.5 else None)
    put(os.path.join(proj.dir, ".booktest"), file_text(rng, local) if local or rng.random() < 0.5 else None)
    # other variables are none of its business
    noise = {"BOOKTES_X": "1", "XBOOKTEST_ACCEPT": "1", "booktest_update": "1"}
    return home, local, env, {**env, **(noise if rng.random() < 0.3 else {})}


def show(cfg):
    return sorted(f"{k}={v}" for k, v in cfg.items())


def printed(ctx, rng, i, d):
    proj = P.Project(d, G.spec(rng, n=1))
    home, local, env, envs = layers(rng, proj, KEYS)
    runs = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        runs.append(rng.sample(OPTIONS, rng.choice([0, 1, 2, 4])))
    # a program may run tests, with default values of its own
    more = [rng.choice([None, None, None, {}, dict((k, rng.choice(["x", "own value"] if k in PATHS else [True, False, "1", "x", "own value"])) for k in rng.sample(KEYS, rng.randint(1, 4)))]) for _ in runs]

    def call():
        import argparse
        import sys
        import booktest as bt
        import booktest.cli
        for opts, extra in zip(runs, more):
            args = ["--config"] + [x for o in opts for x in o[0]]
            if extra is None:
                booktest.cli.main(args)
            elif not extra:
                bt.Tests([]).exec("books", args)
            else:
                parser = argparse.ArgumentParser()
                tests = bt.Tests([])
                tests.setup_parser(parser)
                tests.exec_parsed("books", parser.parse_args(args), extra_default_config=extra)
            sys.stdout.write("<<end>>\n")
        return 0

    o = proj.invoke([], env=envs, call=call)
    ctx.nontrivial([home, local, env, runs])
    ctx.sample({"case": i, "home": home, "local": local, "env": env, "options": runs})
    outs = o.stdout.split("<<end>>\n")
    for n, opts in enumerate(runs):
        want = show(effective(home, local, [(k[len("BOOKTEST_"):], v) for k, v in env.items()],
                              [(None, k, v) for k, v in (more[n] or {}).items()] + opts))
        ctx.count("program_defaults", len(more[n] or {}))
        got = sorted(outs[n].split("\n")[:-1]) if n < len(outs) else None
        ctx.count("printed_configurations")
        ctx.count("printed_keys", len(want))
        if o.rc != 0 or got != want:
            ctx.violation(f"--config number {n + 1} of the process prints {[x for x in got or [] if x not in want]} instead of "
                          f"{[x for x in want if x not in (got or [])]} (status {o.rc})",
                          home=home, local=local, env=envs, options=runs, program=more, stdout=o.stdout, stderr=o.stderr[-1500:],
                          files=[read(proj.home), read(proj.dir)])
            return


def read(d):
    p = os.path.join(d, ".booktest")
    return P.slurp(p) if os.path.exists(p) else None


def setup(ctx, rng, i, d):
    proj = P.Project(d, G.spec(rng, n=1))
    home, local, env, envs = layers(rng, proj, ["diff_tool", "md_viewer", "log_viewer", "x", "default_tests"])
    drop = lambda items: [(k, v) for k, v in items if v.strip() not in ("1", "0", "")]
    home, local = drop(home), drop(local)
    env = {k: v for k, v in env.items() if v.strip() not in ("1", "0", "") and v == v.strip()}
    put(os.path.join(proj.home, ".booktest"), file_text(rng, home))
    put(os.path.join(proj.dir, ".booktest"), file_text(rng, local))
    now = effective(home, local, [(k[len("BOOKTEST_"):], v) for k, v in env.items()])
    answers = [rng.choice(["", "", "tool", "a b=c", "#x", "x y", "ä"]) for _ in SETUP]
    o = proj.invoke(["--setup"], stdin="\n".join(answers) + "\n", env=env)
    want_local = [(k, a or now.get(k) or dflt) for (k, dflt), a in zip(SETUP.items(), answers)]
    o2 = proj.invoke(["--config"], env=env)
    want = show(effective(home, want_local, [(k[len("BOOKTEST_"):], v) for k, v in env.items()]))
    got = sorted(o2.stdout.split("\n")[:-1])
    ctx.count("setups")
    ctx.nontrivial([home, local, env, answers])
    if o.rc != 0 or got != want or o.started:
        ctx.violation(f"after --setup the configuration has {[x for x in got if x not in want]} instead of {[x for x in want if x not in got]} (status {o.rc})",
                      home=home, local=local, env=env, answers=answers, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:], file=read(proj.dir))


FLAGS = {"accept": "-a", "update": "-u", "continue": "-c", "refresh_sources": "-r", "fail_fast": "-f"}
ASPECTS = ("alive", "executed", "order", "records", "results", "exit", "snapshots")


def layered_run(ctx, rng, i, d):
    """switches have the same effect from every layer, and a 0 in a later layer takes it back"""
    proj = P.Project(d, G.spec(rng, roots=("test", "book", "other")))
    history = []
    for step in range(rng.randint(2, 4)):
        G.change(rng, proj, step, p=0.5, fail=rng.choice([0, 0.3]))
        opts = []
        ls = []
        for n in range(3):
            ls.append([(k, rng.choice(["1", "1", "0"])) for k in rng.sample(sorted(FLAGS), rng.choice([0, 1, 2]))])
        home, local, env = ls
        if rng.random() < 0.4:
            k = rng.choice(sorted(FLAGS))
            opts = [([FLAGS[k]], k, True)]
        default = None
        if rng.random() < 0.3:
            default = rng.choice(["test", "book", "other,book", "test,skip:" + proj.cases[0].name, "*"])
            rng.choice(ls).append(("default_tests", default))
        put(os.path.join(proj.home, ".booktest"), file_text(rng, home))
        put(os.path.join(proj.dir, ".booktest"), file_text(rng, local))
        eff = effective(home, local, env, opts)
        sel = G.selection(rng, proj, p_default=0.4)
        flags = [f for k, f in FLAGS.items() if eff.get(k)]
        want_sel = sel
        if not sel and default is not None:
            want_sel = default.split(",")
        e = P.expect_run(proj, flags + want_sel)
        before, pre = proj.snapshots(), proj.records()
        o = proj.invoke([x for q in opts for x in q[0]] + sel, env={"BOOKTEST_" + k.upper(): v for k, v in env})
        o.par, o.order_ok, o.pre, o.before = False, True, pre, before
        o.after_records, o.after = proj.records(), proj.snapshots()
        history.append([home, local, env, [x[0] for x in opts], sel])
        ctx.count("layered_runs")
        ctx.nontrivial([proj.spec, proj.behave, history[-1]])
        bad = G.compare(proj, o, e, ASPECTS)
        if bad:
            ctx.violation(f"{bad[0][0]}: {bad[0][1]} (effective flags {flags})", history=history, **G.describe(proj, sel, (), o, e))
            return
        proj.values = e.values


def sequence(ctx, rng, i, d):
    """several commands in one process: none sees the options of an earlier one"""
    proj = P.Project(d, G.spec(rng, n=rng.randint(2, 6)))
    G.change(rng, proj, 0, p=1, fail=0.2)
    runs = []
    for _ in range(rng.randint(2, 6)):
        args = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            x = rng.choice(["-a", "-u", "-c", "-r", "-f", "-v", "-L", "-s", "-S"])
            if x not in args:
                args.append(x)
        if rng.random() < 0.15 and "-f" not in args:
            args.append(rng.choice(["-p1", "-p2"]))
        runs.append(args + G.selection(rng, proj, p_all=0.5))
    warm = rng.random() < 0.5

    def call():
        import sys
        import booktest.cli
        for args in runs:
            rc = booktest.cli.main(list(args))
            rt.log(ev="after", rc=rc, records=proj.records())
            sys.stdout.write("<<end>>\n")
        return 0

    if warm:
        o, e, go = G.check_step(ctx, proj, ["-a", "*"], ASPECTS)
        if not go:
            return
        G.change(rng, proj, 1, p=0.5, fail=0.2)
    before, pre = proj.snapshots(), proj.records()
    o = proj.invoke([], call=call, quiesce=8)
    ctx.nontrivial([proj.spec, proj.behave, runs])

    def bad(why):
        ctx.violation(why, spec=proj.spec, behaviours=proj.behave, runs=runs, stdout=o.stdout[-3000:], stderr=o.stderr[-1500:])

    after = [x for x in o.events if x["ev"] == "after"]
    if o.hung or o.rc != 0 or len(after) != len(runs):
        return bad(f"the process ended with status {o.rc} after {len(after)} of {len(runs)} commands: {o.stderr[-300:]}")
    outs = o.stdout.split("<<end>>\n")
    at = 0
    for n, args in enumerate(runs):
        ctx.count("commands_in_sequences")
        par = G.parallel(args)
        a = after[n]
        records = [tuple(x) for x in a["records"]]
        order = None
        if par:
            flags, sel = P.split_args(args)
            old = dict(pre)
            todo = [m for m in P.choose(proj, sel, "-r" in flags) if not ("-c" in flags and old.get(m) == "OK")]
            tail = [m for m, _ in records[len([r for r in pre if r[0] not in todo]):]]
            order = tail if sorted(tail) == sorted(todo) else G.topological(proj, todo)
        e = P.expect_run_on(proj, args, (), order, before, pre)
        end = o.events.index(a)
        bodies = [proj.bykey[x["case"]].name for x in o.events[at:end] if x["ev"] == "start"]
        at = end + 1
        who = f"command {n + 1}, {args}, of the process"
        if (sorted(bodies) != sorted(e.bodies)) if par else (bodies != e.bodies):
            return bad(f"{who} executed {bodies} instead of {e.bodies}")
        if records != e.records:
            return bad(f"{who} left the records {records} instead of {e.records}")
        if (a["rc"] or 0) & 255 != e.rc:
            return bad(f"{who} returned {a['rc']} instead of {e.rc}")
        if ("\ntest " in outs[n]) != ("-v" in args and bool(e.run)):
            return bad(f"{who} is verbose: {not '-v' in args}")
        before, pre = P.apply_accept(proj, before, e), records
        proj.values = e.values
    why = P.same_books(proj, before, proj.snapshots(), ran=[c.name for c in proj.cases])
    if why:
        return bad(f"after the commands the snapshots differ from what they accepted: {why[:6]}")
    ctx.sample({"case": i, "runs": runs, "records": pre})
