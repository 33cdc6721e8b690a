"""
Generated scratch projects, the real command run on them in a process of its
own, and a reference model of what a run, a review or a listing must do.

Structure (spec):
  {"units": [...], "order": [case names in declaration order]}
  unit: {"kind": "func", "fn", "name", "async", "deps": [refs], "deco": [...]}
        {"kind": "class", "cls", "methods": [{"m", "async", "deps"}], "instances": [paths]}
  refs: "f3", "K0.test_m1", ["port", 8080], ["res", value, identifier]
"""
import faulthandler
import io
import json
import os
import re
import resource
import select
import shutil
import signal
import sys
import threading
import time
import traceback

from vf import rt
from vf.core import Inconclusive, tree

PROMPT = "(c)ontinue, (q)uit, (v)iew, (l)ogs, (d)iff or fast (D)iff"


class Case:
    def __init__(self, name, key, ref, deps, resources, args):
        self.name, self.key, self.ref = name, key, ref
        self.deps = deps              # names of the cases it depends on
        self.resources = resources    # identifiers
        self.args = args              # per injected parameter: ("dep", name) or ("val", canon)


# ---------------------------------------------------------------- structure

def resolve(spec):
    """the cases in declaration order, dependencies resolved as documented"""
    funcs = {u["fn"]: u for u in spec["units"] if u["kind"] == "func"}
    classes = {u["cls"]: u for u in spec["units"] if u["kind"] == "class"}
    by = {}
    for u in spec["units"]:
        if u["kind"] == "func":
            by[u["name"]] = (u["fn"], u["fn"], u["deps"], None, None)
        else:
            for inst in u["instances"]:
                for m in u["methods"]:
                    ref = u["cls"] + "." + m["m"]
                    by[inst + "/" + m["m"][5:]] = (inst + ":" + m["m"], ref, m["deps"], u["cls"], inst)
    rv = []
    for name in spec["order"]:
        key, ref, deps, cls, inst = by[name]
        names, res, args = [], [], []
        for d in deps:
            if isinstance(d, list):
                if d[0] == "port":
                    res.append(f"port={d[1]}")
                else:
                    res.append(d[2] if d[2] is not None else d[1])
                args.append(("val", rt.canon(d[1])))
                continue
            if "." in d:
                dcls, m = d.split(".")
                if dcls == cls:
                    target = inst + "/" + m[5:]
                else:
                    # the first one declared
                    target = [n for n in spec["order"] if by[n][1] == d][0]
            else:
                target = funcs[d]["name"]
            names.append(target)
            args.append(("dep", target))
        rv.append(Case(name, key, ref, names, res, args))
    return rv


def ref_code(d):
    if isinstance(d, list):
        if d[0] == "port":
            return f"bt.port({d[1]!r})"
        if d[2] is None:
            return f"bt.Resource({d[1]!r})"
        return f"bt.Resource({d[1]!r}, {d[2]!r})"
    return d


def module_code(spec):
    out = ["import booktest as bt", "from vf import rt", spec.get("head", ""), ""]

    def deco(u, indent, cls=None):
        for x in u.get("deco", []):
            out.append(indent + "@" + x)
        if u["deps"]:
            refs = []
            for d in u["deps"]:
                c = ref_code(d)
                if cls and c.startswith(cls + "."):
                    c = c[len(cls) + 1:]
                refs.append(c)
            out.append(f"{indent}@bt.depends_on({', '.join(refs)})")
        for x in u.get("deco_in", []):
            out.append(indent + "@" + x)

    tests = []
    for u in spec["units"]:
        if u["kind"] == "func":
            deco(u, "")
            ps = "".join(f", d{n}" for n in range(len(u["deps"])))
            if u.get("async"):
                out += [f"async def {u['fn']}(t{ps}):", f"    return await rt.abody(t, {u['fn']!r}{ps})", ""]
            else:
                out += [f"def {u['fn']}(t{ps}):", f"    return rt.body(t, {u['fn']!r}{ps})", ""]
            tests.append((u["name"], u["fn"]))
        else:
            out += [f"class {u['cls']}(bt.TestBook):", "    def __init__(self, p):",
                    "        bt.TestBook.__init__(self, p)", "        self.p = p", ""]
            for m in u["methods"]:
                deco(m, "    ", u["cls"])
                ps = "".join(f", d{n}" for n in range(len(m["deps"])))
                k = f"self.p + ':{m['m']}'"
                if m.get("async"):
                    out += [f"    async def {m['m']}(self, t{ps}):", f"        return await rt.abody(t, {k}{ps})", ""]
                else:
                    out += [f"    def {m['m']}(self, t{ps}):", f"        return rt.body(t, {k}{ps})", ""]
            for n, inst in enumerate(u["instances"]):
                var = f"_{u['cls']}_{n}"
                out.append(f"{var} = [{u['cls']}({inst!r})]")
                for m in u["methods"]:
                    tests.append((inst + "/" + m["m"][5:], f"{var}[0].{m['m']}"))
            out.append("")
    tests = dict(tests)
    out.append("all_tests = bt.Tests([")
    for n in spec["order"]:
        out.append(f"    ({n!r}, {tests[n]}),")
    out.append("])")
    out += spec.get("tail", [])
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- selection

def under(name, prefix):
    return prefix == "*" or name == prefix or name.startswith(prefix + "/")


def is_selected(name, sel):
    pos = [s for s in sel if not s.startswith("skip:")]
    neg = [s[5:] for s in sel if s.startswith("skip:")]
    if any(under(name, s) for s in neg):
        return False
    return not pos or any(under(name, s) for s in pos)


# ---------------------------------------------------------------- outcomes

FAILS = ("fail", "openfail", "assert", "raise", "exit", "hopeless", "unstorable")


def lines_of(b, dep_values):
    rv = list(b.get("lines", []))
    shown = []
    if b.get("show"):
        shown = list(dep_values)
    shown += b.get("pic_lines", [])
    return rv, list(b.get("ignored", [])), shown


def text_of(b, dep_values=()):
    a, i, s = lines_of(b, dep_values)
    return "".join(x + "\n" for x in a + i + s)


def outcome(b, snap, dep_values=()):
    """OK, DIFF or FAIL of a body against a snapshot text (None if there is none)"""
    if b.get("end", "ok") in FAILS:
        return "FAIL"
    if snap is None:
        return "DIFF"
    a, i, s = lines_of(b, dep_values)
    old = snap.split("\n")[:-1]
    for n, x in enumerate(a):
        if n >= len(old) or old[n] != x:
            return "DIFF"
    for n, x in enumerate(s):
        n += len(a) + len(i)
        if n >= len(old) or old[n] != x:
            return "DIFF"
    return "OK"


# ---------------------------------------------------------------- the project

class Obs:
    pass


class Project:
    def __init__(self, root, spec, extra=None):
        """root is an empty scratch directory"""
        self.root = root
        self.spec = spec
        self.dir = os.path.join(root, "p")
        self.books = os.path.join(self.dir, "books")
        self.out = os.path.join(self.books, ".out")
        self.ev = os.path.join(root, "events")
        self.behave_file = os.path.join(root, "behave.json")
        self.home = os.path.join(root, "home")
        os.makedirs(self.home)
        os.makedirs(os.path.join(self.dir, "test"))
        self.cases = resolve(spec)
        self.by = {c.name: c for c in self.cases}
        self.bykey = {c.key: c for c in self.cases}
        self.behave = {}
        with open(os.path.join(self.dir, "test", "__init__.py"), "w"):
            pass
        with open(os.path.join(self.dir, "test", "x_book.py"), "w") as f:
            f.write(module_code(spec))
        for p, text in (extra or {}).items():
            p = os.path.join(self.dir, p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
        # what the model knows beyond the files: the last stored value of each case
        self.values = {}
        self.steps = 0

    # state on disk
    def records(self):
        rv = []
        try:
            with open(os.path.join(self.out, "cases.txt"), errors="replace") as f:
                for ln in f.read().split("\n"):
                    if ln:
                        parts = ln.split("\t")
                        rv.append((parts[0], parts[1] if len(parts) > 1 else None))
        except FileNotFoundError:
            pass
        return rv

    def times(self):
        """{case: recorded milliseconds, as they are written}"""
        try:
            with open(os.path.join(self.out, "cases.txt"), errors="replace") as f:
                return {x[0]: x[2] if len(x) == 3 else None for x in (ln.split("\t") for ln in f.read().split("\n") if ln)}
        except FileNotFoundError:
            return {}

    def total(self):
        try:
            with open(os.path.join(self.out, "metrics.json")) as f:
                return json.load(f)["tookMs"]
        except (OSError, ValueError, KeyError, TypeError):
            return None

    def snapshots(self):
        if not os.path.isdir(self.books):
            return {}
        return tree(self.books, (".out", "index.md"))

    def snap_text(self, name):
        try:
            with open(os.path.join(self.books, name + ".md"), newline="") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def stored(self):
        """names with a stored result that is not None"""
        return {n for n, v in self.values.items() if v is not None and v != rt.canon(None)}

    def forget_value(self, name):
        """as if the user had removed the stored result"""
        self.values.pop(name, None)
        p = os.path.join(self.out, name + ".bin")
        if os.path.exists(p):
            os.remove(p)

    # running
    def invoke(self, args, stdin="", real=False, env=None, wall=120, cpu=60, quiesce=0, call=None, perturb=None, sigint=None):
        self.steps += 1
        with open(self.behave_file, "w") as f:
            json.dump(self.behave, f)
        try:
            os.unlink(self.ev)
        except FileNotFoundError:
            pass
        fin, fout, ferr = (os.path.join(self.root, x) for x in ("stdin", "stdout", "stderr"))
        with open(fin, "w") as f:
            f.write(stdin)
        o = Obs()
        envs = {"HOME": self.home, "VF_EV": self.ev, "VF_BEHAVE": self.behave_file}
        envs.update(env or {})
        o.args = args
        pid = os.fork()
        if pid == 0:
            try:
                child(self.dir, args, envs, fin, fout, ferr, real, cpu, call, perturb)
            finally:
                os._exit(99)
        o.hung = False
        if sigint is not None:
            threading.Timer(sigint, interrupt, [pid]).start()
        status = wait(pid, wall, self.ev if quiesce else None, o, quiesce, not real)
        if os.WIFSIGNALED(status):
            o.rc = -os.WTERMSIG(status)
        else:
            o.rc = os.WEXITSTATUS(status)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        o.stdout, o.stderr = slurp(fout), slurp(ferr)
        o.events = read_events(self.ev)
        o.started = [e["case"] for e in o.events if e["ev"] == "start"]
        o.crashed = "Traceback (most recent call last)" in o.stderr
        return o


def interrupt(pid):
    """as a terminal does"""
    try:
        os.killpg(pid, signal.SIGINT)
    except OSError:
        pass


def slurp(p):
    with open(p, "rb") as f:
        return f.read().decode("utf-8", "replace")


def read_events(p):
    try:
        with open(p) as f:
            return [json.loads(ln) for ln in f]
    except FileNotFoundError:
        return []


def child(cwd, args, envs, fin, fout, ferr, real, cpu, call=None, perturb=None):
    os.setpgid(0, 0)
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    # it is ignored in what a shell runs in the background
    signal.signal(signal.SIGINT, signal.default_int_handler)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    os.chdir(cwd)
    for fd, (p, fl) in enumerate([(fin, os.O_RDONLY), (fout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                                  (ferr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)]):
        h = os.open(p, fl, 0o644)
        os.dup2(h, fd)
        os.close(h)
    for k in list(os.environ):
        if k.startswith("BOOKTEST_"):
            del os.environ[k]
    os.environ.update(envs)
    if real:
        os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
        os.execv(sys.executable, [sys.executable, "-c",
                                  "import sys; from booktest.cli import main; sys.exit(main())"] + list(args))
    sys.stdin = io.TextIOWrapper(os.fdopen(0, "rb"), encoding="utf-8")
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb"), encoding="utf-8", line_buffering=True)
    sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb"), encoding="utf-8", line_buffering=True)
    sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr
    faulthandler.register(signal.SIGUSR1, file=2)
    import multiprocessing
    import booktest.cli
    import booktest.config
    booktest.config.DEFAULT_CONFIG = None
    orig = multiprocessing.get_context

    def get_context(method=None):
        # workers are forked from this process to save their start up time
        return orig("fork" if method == "spawn" else method)

    multiprocessing.get_context = get_context
    if perturb is not None:
        disturb(perturb)
    sys.argv = ["booktest"] + list(args)
    code = 1
    try:
        rv = call() if call is not None else booktest.cli.main(list(args))
        code = 0 if rv is None else (int(rv) & 255 if isinstance(rv, int) else 1)
    except SystemExit as e:
        code = 0 if e.code is None else (int(e.code) & 255 if isinstance(e.code, int) else 1)
    except BaseException:
        traceback.print_exc()
    try:
        threading._shutdown()
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def disturb(seed):
    """delays in the job handling of the standard library, to reach more interleavings"""
    import multiprocessing.pool as mp
    import random
    rng = random.Random(seed)
    apply, ready = mp.Pool.apply_async, mp.ApplyResult.ready

    def apply_async(self, *a, **kw):
        if rng.random() < 0.3:
            time.sleep(rng.choice([0.001, 0.004, 0.015]))
        return apply(self, *a, **kw)

    def is_ready(self):
        rv = ready(self)
        if rv and rng.random() < 0.3:
            # completion is noticed later
            return False
        return rv

    mp.Pool.apply_async = apply_async
    mp.ApplyResult.ready = is_ready
    if rng.random() < 0.5:
        sys.setswitchinterval(rng.choice([1e-6, 1e-4, 0.05]))


def wait(pid, wall, ev, o, windows, stacks=False):
    fd = os.pidfd_open(pid)
    try:
        p = select.poll()
        p.register(fd, select.POLLIN)
        end = time.monotonic() + wall
        idle = 0
        last = None
        while True:
            if p.poll(1500):
                return os.waitpid(pid, 0)[1]
            if ev is not None:
                now = activity(pid, ev)
                # nothing moved but the polling main process: no test is
                # running, the workers use no CPU time, nothing is logged
                if last is not None and now is not None and now[1:] == last[1:] and now[2] == 0 \
                        and (now[0][1] != "R" or now[0][0] - last[0][0] >= 5):
                    idle += 1
                else:
                    idle = 0
                last = now
                if idle >= windows:
                    o.hung = True
            if o.hung or time.monotonic() > end:
                if stacks:
                    os.kill(pid, signal.SIGUSR1)
                    time.sleep(0.5)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                st = os.waitpid(pid, 0)[1]
                if not o.hung:
                    raise Inconclusive(f"no end of the command within {wall} s")
                return st
    finally:
        os.close(fd)


def activity(pid, ev):
    """(CPU ticks of the main process, CPU ticks of its descendants, tests in flight, log size)"""
    stats = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    s = f.read().rsplit(")", 1)[1].split()
                stats[int(d)] = (int(s[1]), int(s[11]) + int(s[12]), s[0])
            except (OSError, ValueError, IndexError):
                pass
    kids, grow = {pid}, True
    while grow:
        grow = False
        for k, v in stats.items():
            if v[0] in kids and k not in kids:
                kids.add(k)
                grow = True
    if any(stats[k][2] in "RD" for k in kids if k != pid and k in stats):
        return None
    live = {k for k in kids if k in stats and stats[k][2] != "Z"}
    flight = {}
    for e in read_events(ev):
        if e["ev"] == "start":
            flight[e["pid"]] = flight.get(e["pid"], 0) + 1
        elif e["ev"] == "end":
            flight[e["pid"]] = flight.get(e["pid"], 0) - 1
    n = sum(v for k, v in flight.items() if k in live)
    size = os.path.getsize(ev) if os.path.exists(ev) else 0
    return (stats[pid][1:] if pid in stats else (0, "Z"),
            sum(stats[k][1] for k in live if k != pid), n, size, len(live))


# ---------------------------------------------------------------- expectation

FLAGS = {"-i", "-I", "-v", "-L", "-f", "-c", "-r", "-u", "-a", "-s", "-S"}


class Expect:
    pass


def choose(proj, sel, refresh, stored=None):
    """the cases a run executes, in the order of a serial run"""
    stored = proj.stored() if stored is None else stored
    rv = []
    visited = set()

    def needs(name):
        for d in proj.by[name].deps:
            if d not in visited and (is_selected(d, sel) or refresh or d not in stored):
                visited.add(d)
                needs(d)
                if d not in rv:
                    rv.append(d)

    for c in proj.cases:
        if is_selected(c.name, sel):
            needs(c.name)
            if c.name not in rv:
                rv.append(c.name)
    return rv


def split_args(args):
    flags = {a for a in args if a.startswith("-")}
    sel = [a for a in args if not a.startswith("-")] or ["test", "book"]
    return flags, sel


def answers_left(script):
    return iter(script)


def review_one(e, name, res, flags, script, has_out=True):
    """asks if that is due; returns (result, accepted, quit)"""
    ask = "-I" in flags or ("-i" in flags and res != "OK")
    accepted = quit_ = False
    if ask:
        e.asked.append((name, res))
        for a in script:
            e.answered.append(a)
            e.offers = getattr(e, "offers", 0) + (res != "FAIL")
            if a == "a" and res != "FAIL":
                accepted = True
                break
            if a == "c":
                break
            if a == "q":
                quit_ = True
                break
            if a in ("v", "l", "d", "D"):
                e.tools.append((a, name))
        else:
            raise AssertionError("the answers ran out")
    if res == "OK" and "-u" in flags:
        accepted = True
    if res == "DIFF" and "-a" in flags:
        accepted = True
    if accepted and has_out:
        return "OK", True, quit_
    return res, False, quit_


def expect_run(proj, args, script=(), order=None):
    return expect_run_on(proj, args, script, order, proj.snapshots(), proj.records())


def expect_run_on(proj, args, script, order, before, pre, forced=None):
    """
    What a run must do. order is the observed order of the records of a
    parallel run (its cases end in any order that the dependencies allow).
    forced are cases that failed for a reason of their own, and what is stored of them.
    """
    forced = forced or {}
    flags, sel = split_args(args)
    script = iter(script)
    e = Expect()
    e.asked, e.answered, e.tools = [], [], []
    e.flags = flags
    chosen = choose(proj, sel, "-r" in flags)
    old = dict(pre)
    e.chosen = chosen
    e.todo = [n for n in chosen if not ("-c" in flags and old.get(n) == "OK")]
    values = dict(proj.values)
    e.run, e.bodies, e.results, e.received, e.accepted, e.raw = [], [], {}, {}, [], {}
    e.texts = {}
    ok = True
    e.stopped = False
    for n in (order if order is not None else e.todo):
        c = proj.by[n]
        b = proj.behave.get(c.key, {})
        e.run.append(n)
        missing = [a[1] for a in c.args if a[0] == "dep" and a[1] not in values]
        if missing:
            res = "FAIL"
        else:
            e.bodies.append(n)
            got = [values[x] if k == "dep" else x for k, x in c.args]
            e.received[n] = got
            snap = before.get(n + ".md")
            res = outcome(b, None if snap is None else snap.decode("utf-8", "replace"), got)
            e.texts[n] = text_of(b, got)
            if res != "FAIL":
                values[n] = rt.canon(rt.make(b["ret"]) if "ret" in b else None)
        if n in forced:
            res = "FAIL"
            values.pop(n, None)
            if forced[n] is not None:
                values[n] = forced[n]
        e.raw[n] = res
        res, acc, quit_ = review_one(e, n, res, flags, script)
        if acc:
            e.accepted.append(n)
        e.results[n] = res
        if res != "OK":
            ok = False
        if quit_ or ("-f" in flags and res != "OK"):
            e.stopped = True
            break
    e.values = values
    e.rc = 0 if ok else 255
    e.records = [r for r in pre if r[0] not in e.todo] + [(n, e.results[n]) for n in e.run]
    return e


def apply_accept(proj, before, e):
    """the snapshot tree after the run"""
    rv = dict(before)
    for n in e.accepted:
        b = proj.behave.get(proj.by[n].key, {})
        put_case(rv, n, e.texts[n], b.get("all_files", b.get("files", {})))
    return rv


def put_case(rv, n, text, files):
    for k in [k for k in rv if k == n or k.startswith(n + "/")]:
        del rv[k]
    rv[n + ".md"] = text.encode()
    if files:
        rv[n] = None
        for f, x in files.items():
            rv[n + "/" + f] = x.encode()


def parents(names):
    rv = set()
    for n in names:
        parts = n.split("/")[:-1]
        for k in range(len(parts)):
            rv.add("/".join(parts[:k + 1]))
    return rv


def same_books(proj, want, got, ran=()):
    """None or the differences; directories of cases that ran may have been created"""
    from vf.core import diff_trees
    extra = parents(ran)
    got = {k: v for k, v in got.items() if not (k in extra and v is None and k not in want)}
    want = dict(want)
    if got == want:
        return None
    return diff_trees(want, got)


LINE = re.compile(r"^  (?P<name>.+?)\.\.(?:(?P<ok>\d+ ms)|(?P<diff>DIFFERED in \d+ ms)|(?P<fail>FAILED in \d+ ms))", re.M)
SUM = re.compile(r"^(\d+)/(\d+) test (succeeded|failed) in \d+ ms(:?)$", re.M)


VERDICT = re.compile(r"^(.+) (ok|DIFFERED|FAILED) in (\d+) ms\.?$", re.M)
TOOK = re.compile(r"^\d+/\d+ test (?:succeeded|failed) in (\d+) ms:?$", re.M)


def printed_times(stdout, verbose):
    """([printed milliseconds of each case], of all)"""
    if verbose:
        rows = [int(m[3]) for m in VERDICT.finditer(stdout)]
    else:
        rows = [int(re.search(r"(\d+) ms$", m[0])[1]) for m in LINE.finditer(stdout)]
    total = [int(m[1]) for m in TOOK.finditer(stdout)]
    return rows, total[0] if len(total) == 1 else None


def verdicts(stdout):
    """[(name, printed result)] of a verbose run"""
    return [(m[1], {"ok": "OK", "DIFFERED": "DIFF", "FAILED": "FAIL"}[m[2]]) for m in VERDICT.finditer(stdout)]


def summary(stdout):
    """([(name, printed result)], (failed count or None, tests), [failure list])"""
    rows = []
    for m in LINE.finditer(stdout):
        rows.append((m["name"], "OK" if m["ok"] else "DIFF" if m["diff"] else "FAIL"))
    s = list(SUM.finditer(stdout))
    if len(s) != 1:
        return rows, None, None
    m = s[0]
    listed = []
    if m[3] == "failed":
        listed = [x[2:] for x in stdout[m.end():].split("\n") if x.startswith("  ")]
        return rows, (int(m[1]), int(m[2])), listed
    return rows, (0 if m[1] == m[2] else -1, int(m[2])), listed
