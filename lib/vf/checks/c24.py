"""A test leaves no trace in the process and its stderr and logs go to its own log."""
import os

from vf import proj as P
from vf import projgen as G
from vf import rt

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
SETUPS = ["none", "plain", "formatter", "two", "before", "mixed", "mixed"]
KINDS = ["stream", "null", "file", "list", "memory", "rotating", "queue"]


def noise(rng, tag):
    rv = []
    for n in range(rng.choice([0, 1, 2, 3, 6])):
        kind = rng.choice(["err", "err", "errw", "log", "log", "root", "info", "thread", "add", "clear", "swap", "basic"])
        rv.append([kind, f"{tag}.{n} " + rng.choice(["text", "ä€", "a  b", "%s %d", "x: y", "two\nlines", "é" * 3000, "log: x", "{}"])])
    return rv


def written(acts, fmt):
    """the content of the log of a test"""
    out = []
    lost = False
    for kind, text in acts:
        if kind == "swap":
            lost = True
        elif kind == "err":
            out += [] if lost else [text + "\n"]
        elif kind == "errw":
            out += [] if lost else [text]
        elif kind in ("log", "root"):
            level = "WARNING" if kind == "log" else "ERROR"
            out.append(fmt(level, text) + "\n")
        elif kind == "thread":
            out += [] if lost else [text + "\n"]
            out.append(fmt("WARNING", text) + "\n")
    return "".join(out)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(1, 6), dep=0.2, asy=0.4))
        history = []
        logs = {}
        for step in range(rng.randint(1, 4)):
            runs = []
            setup = rng.choice(SETUPS)
            if setup == "mixed":
                setup = [[rng.choice(KINDS), rng.random() < 0.4, rng.choice([0, 0, 30, 50]), rng.random() < 0.2] for _ in range(rng.randint(1, 4))]
            # several runs in one process now and then
            change(rng, proj, f"{step}")
            for b in proj.behave.values():
                if rng.random() < 0.5:
                    b["held"] = os.path.realpath(proj.dir)
            for k in range(rng.choice([1, 1, 2])):
                args = list(rng.choice([[], ["-a"], ["-v"], ["-L"], ["-L"], ["-L", "-v"], ["-f"], ["-c"], ["-u"]]))
                if rng.random() < 0.25 and "-f" not in args:
                    args.append(rng.choice(["-p1", "-p2"]))
                runs.append(args + G.selection(rng, proj, p_all=0.6))
            if rng.random() < 0.08:
                # an interrupt ends the last run
                runs = [["*"]]
                proj.behave[rng.choice(proj.cases).key]["end"] = rng.choice(["base", "cancel"])
            history.append([setup, runs])
            if not one(ctx, proj, setup, runs, logs, history):
                return
            if interrupted(proj):
                ctx.count("interrupted_runs")
                return
        ctx.sample({"case": i, "noise": {k: b["noise"] for k, b in proj.behave.items()}, "history": history})
    finally:
        ctx.drop(d)


def change(rng, proj, step):
    for c in proj.cases:
        b = {"lines": [f"{c.key} version {rng.randrange(2)}"], "noise": noise(rng, f"{c.key}@{step}"), "ret": ["int", 1]}
        if rng.random() < 0.3:
            b["end"] = rng.choice(P.FAILS)
        if rng.random() < 0.3:
            b["mid"] = [0.001]
        proj.behave[c.key] = b


def interrupted(proj):
    return any(b.get("end") in ("base", "cancel") for b in proj.behave.values())


def handler(kind, path):
    """a handler of the host process"""
    import io
    import logging
    import logging.handlers
    import queue

    class Collect(logging.Handler):
        def __init__(self):
            super().__init__()
            self.seen = []

        def emit(self, record):
            self.seen.append(record)
    if kind == "null":
        return logging.NullHandler()
    if kind == "file":
        return logging.FileHandler(path, delay=len(path) % 2 == 0)
    if kind == "rotating":
        return logging.handlers.RotatingFileHandler(path, maxBytes=1000)
    if kind == "list":
        return Collect()
    if kind == "memory":
        h = logging.handlers.MemoryHandler(1000, target=Collect())
        h.seen = h.buffer
        return h
    if kind == "queue":
        h = logging.handlers.QueueHandler(queue.Queue())
        h.seen = h.queue.queue
        return h
    return logging.StreamHandler(io.StringIO())


def one(ctx, proj, setup, runs, logs, history):
    def call():
        import asyncio
        import io
        import logging
        import sys
        import booktest.cli
        root = logging.getLogger()
        if setup in ("plain", "formatter", "two"):
            h = logging.StreamHandler(io.StringIO())
            if setup == "formatter":
                h.setFormatter(logging.Formatter("%(levelname)s|%(message)s|"))
            root.addHandler(h)
            if setup == "two":
                root.addHandler(logging.NullHandler())
        if isinstance(setup, list):
            for n, (kind, fmt, level, silent) in enumerate(setup):
                h = handler(kind, os.path.join(proj.root, f"host{n}.log"))
                if fmt:
                    h.setFormatter(logging.Formatter("%(levelname)s|%(message)s|"))
                h.setLevel(level)
                if silent:
                    h.addFilter(lambda record: False)
                root.addHandler(h)
        if setup == "before":
            sys.stderr = io.StringIO()
        rv = 0
        for args in runs:
            handlers, same, err, level = list(root.handlers), root.handlers, sys.stderr, root.level
            held = rt.held(os.path.realpath(proj.dir))
            try:
                rv = booktest.cli.main(list(args))
            except SystemExit as e:
                rv = e.code
            except (rt.Base, asyncio.CancelledError):
                rv = 1
            sys.stdout.write("\n<<end of run>>\n")
            rt.log(ev="after", handlers=root.handlers == handlers, err=sys.stderr is err, level=root.level == level,
                   snap={n: read(proj, n) for n in proj.by}, held=[held, rt.held(os.path.realpath(proj.dir))])
            for h in handlers:
                if isinstance(getattr(h, "stream", None), io.StringIO):
                    rt.log(ev="leak", text=h.stream.getvalue())
                elif isinstance(h, logging.FileHandler):
                    rt.log(ev="leak", text=P.slurp(h.baseFilename) if os.path.exists(h.baseFilename) else "")
                elif hasattr(h, "seen"):
                    rt.log(ev="leak", text="".join(map(str, h.seen)))
            if isinstance(err, io.StringIO):
                rt.log(ev="leak", text=err.getvalue())
        return rv

    o = proj.invoke([], call=call, quiesce=8)
    outs = o.stdout.split("\n<<end of run>>\n")
    after = [e for e in o.events if e["ev"] == "after"]
    why = None
    if o.hung or (o.rc not in (0, 255) and not interrupted(proj)) or len(after) != len(runs):
        why = f"the runs ended with status {o.rc}: {o.stderr[-400:]}"
    ctx.nontrivial([proj.spec, proj.behave, runs, setup])
    ctx.distinct("host_handlers", setup)
    if setup == "formatter" or isinstance(setup, list) and setup[0][1]:
        fmt = lambda level, text: f"{level}|{text}|"
    else:
        fmt = lambda level, text: text
    position = 0
    records = None
    for k, args in enumerate(runs) if not why else ():
        ctx.count("runs")
        flags, sel = P.split_args(args)
        par = G.parallel(args)
        a = after[k]
        if not (a["handlers"] and a["err"] and a["level"]):
            why = f"run {k}: the handlers of the root logger are the same: {a['handlers']}, sys.stderr: {a['err']}, level: {a['level']}"
            break
        was, now = a["held"]
        if was != now:
            why = f"run {k}: the process holds {now} after the run and {was} before it"
            break
        # the cases that ran, by their events
        end = o.events.index(a)
        for e in o.events[position:end]:
            if e["ev"] == "start" and "held" in e:
                n = proj.bykey[e["case"]].name
                # the files of a case are at its name, in the output of a run or of a job
                other = [f for f in e["held"] for x in proj.by
                         if x != n and ("/" + f).endswith(tuple(f"/{x}.{s}" for s in ("md", "txt", "log", "bin", "out.md")))
                         and not ("/" + f).endswith(tuple(f"/{n}.{s}" for s in ("md", "txt", "log", "bin", "out.md")))]
                ctx.count("looks_at_open_files")
                if other:
                    why = f"run {k}: while {n} runs, files of other cases are open: {other}"
        ran = [proj.bykey[e["case"]].name for e in o.events[position:end] if e["ev"] == "start"]
        position = end + 1
        shown = []
        for n in ran:
            b = proj.behave[proj.by[n].key]
            logs[n] = written(b["noise"], fmt)
            shown += [(n, logs[n])] if logs[n] else []
            ctx.count("bodies_" + b.get("end", "ok"))
            ctx.count("noises", len(b["noise"]))
        for n in proj.by:
            have = a["snap"][n]
            if interrupted(proj) and n not in ran:
                continue
            if n in ran or (n in logs and have is not None):
                # a case whose dependencies have no value starts with an empty log
                if have != logs[n] and not (n not in ran and have == ""):
                    why = f"run {k}: the log of {n} is {have!r:.400} instead of {logs[n]!r:.400} ({'ran' if n in ran else 'did not run'})"
                    break
                logs[n] = have
        if why:
            break
        out = outs[k]
        if "-L" in flags:
            if "-v" in flags:
                for n, text in shown:
                    block = f"{n.rsplit('/', 1)[-1]} logs:\n\n" + "".join("  " + ln + "\n" for ln in lines(text))
                    if block not in out:
                        why = f"run {k}: the log of {n} is not printed as {block!r:.300}"
                got = sum(1 for ln in out.split("\n") if ln.endswith(" logs:"))
                if got != len(shown):
                    why = f"run {k}: {got} logs are printed instead of {len(shown)}"
                ctx.count("printed_logs", len(shown))
            else:
                got = [ln[9:] for ln in out.split("\n") if ln.startswith("    log: ")]
                want = [ln for n, text in shown for ln in lines(text)]
                if (sorted(got) != sorted(want)) if par else (got != want):
                    why = f"run {k}: the printed log lines are {got!r:.400} instead of {want!r:.400}"
                ctx.count("printed_logs", len(shown))
        elif any(ln.startswith("    log: ") or ln.endswith(" logs:") for ln in out.split("\n")):
            why = f"run {k}: logs are printed without -L"
        if why:
            break
    leaks = [e["text"] for e in o.events if e["ev"] == "leak" and e["text"]]
    if not why and leaks:
        why = f"the stderr or handlers from before the run got {leaks[0]!r:.300}"
    if not why and any(t in o.stderr for t in ("@0.", "@1.", "@2.", "@3.")):
        why = f"text of tests is on the standard error of the command: {o.stderr[:300]!r}"
    if why:
        ctx.violation(f"{why} (setup {setup}, runs {runs})", spec=proj.spec, behaviours=proj.behave, history=history,
                      stdout=o.stdout[-2500:], stderr=o.stderr[-1500:])
        return False
    # the histories go on with what is stored
    for n, r in proj.records():
        if r in ("OK", "DIFF"):
            proj.values[n] = "?"
    return True


def lines(text):
    rv = text.split("\n")
    return rv[:-1] if rv[-1] == "" else rv


def read(proj, n):
    p = os.path.join(proj.out, n + ".log")
    return P.slurp(p) if os.path.exists(p) else None
