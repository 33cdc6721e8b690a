"""Snapshots of what a test does in several threads or tasks at once."""
import base64
import collections
import json
import os

from vf import httpops
from vf import proj as P
from vf import rt
from vf import web

PLAN = {"quick": {"cases": 60, "seconds": 40}, "thorough": {"cases": 4000, "seconds": 900}}
BASE = []
FXC = '''
import time
from vf import rt


def get(x):
    rt.log(ev="call", f="fxc.get", args=[x])
    time.sleep(x % 3 * 0.002)
    return [x, rt.behave("functions")["version"]]


def put(x):
    rt.log(ev="call", f="fxc.put", args=[x])
    return {"put": x, "v": rt.behave("functions")["version"]}
'''
HEAD = "from test import fxc"
LIBS = ("requests", "httpx", "func")


SECTIONS = {"request snaphots:": "requests", "httpx snaphots:": "httpx", "function call snapshots:": "func"}


def prepare(ctx):
    BASE.append(web.serve())
    if ctx.shard == 0:
        patient(ctx)


def patient(ctx):
    """a request takes long, while others are made in other threads"""
    d = ctx.newdir()
    try:
        unit = {"kind": "func", "fn": "f0", "name": "test/a", "async": False, "deps": [], "deco": ["bt.snapshot_requests()"]}
        proj = P.Project(d, {"units": [unit], "order": ["test/a"]})
        op = {"headers": {}, "method": "GET", "n": 0}
        threads = [[dict(op, lib=lib, path=path)] for lib in ("requests",) for path in ("/veryslow/10.4", "/text/a", "/text/b")]
        for args in (["-s", "-a"], []):
            proj.behave = {"f0": {"lines": ["begin"], "conc": {"threads": threads, "mode": "threads", "p": 0, "seed": 1}}}
            o = proj.invoke(args, env={"VF_BASE": BASE[0]}, quiesce=20)
            ctx.count("patient_runs")
            if o.hung or o.rc != 0 or any("refused" in e for e in o.events):
                ctx.violation(f"requests in other threads than one that takes 10.4 s fail (arguments {args})", key="slow-request-in-a-thread",
                              events=o.events, stdout=o.stdout[-1500:], stderr=o.stderr[-2500:])
                return
    finally:
        ctx.drop(d)


def lib_of(op):
    return {"ahttpx": "httpx"}.get(op["lib"], op["lib"])


def operation(rng, asy, libs):
    lib = rng.choice(libs)
    if lib == "file":
        # the name is given by the place
        return {"lib": "file", "how": rng.choice(["file", "file", "tmp_path", "tmp_dir", "tmp_file"])}
    if lib == "func":
        return {"lib": "func", "f": rng.choice(["fxc.get", "fxc.put"]), "args": [rng.randrange(5)]}
    if lib == "httpx" and asy and rng.random() < 0.6:
        lib = "ahttpx"
    # the server counts by path
    kind = rng.choice(["text", "json", "slow", "slow", "slow", "count", "count", "bin", "gzip", "big"])
    path = f"/{kind}/{lib[-1]}{rng.choice('abcd')}" + (rng.choice(["", "?q=1"]) if rng.random() < 0.3 else "")
    op = {"lib": lib, "path": path, "method": rng.choice(["GET", "GET", "GET", "POST", "PUT"]), "headers": {}, "n": 0}
    if op["method"] != "GET":
        # one body for a path and method
        op["body"] = ["str", f"body of {path}"]
    if lib != "ahttpx" and rng.random() < 0.4:
        op["shared"] = True
    return op


def ident(op):
    if op["lib"] == "file":
        return ("file", op["how"])
    if op["lib"] == "func":
        return ("func", op["f"], json.dumps(op["args"]))
    return (lib_of(op), op["method"], op["path"])


def workload(rng, asy, libs):
    few = [operation(rng, asy, libs) for _ in range(rng.randint(1, 6))]
    rv = []
    for _ in range(rng.randint(2, 6)):
        rv.append([dict(rng.choice(few)) if rng.random() < 0.6 else operation(rng, asy, libs) for _ in range(rng.randint(1, 4))])
    if rng.random() < 0.3:
        # the same in every thread
        rv = [[dict(x) for x in rv[0]] for _ in rv]
    return rv


def change(rng, threads, asy, libs):
    rv = [[dict(x) for x in t] for t in threads]
    k = rng.choice(["same", "same", "shuffle", "add", "drop", "split", "new"])
    if k == "new":
        return workload(rng, asy, libs)
    if k == "shuffle":
        rng.shuffle(rv)
        for t in rv:
            rng.shuffle(t)
    elif k == "add":
        for _ in range(rng.randint(1, 3)):
            op = operation(rng, asy, libs) if rng.random() < 0.5 else dict(rng.choice(rng.choice(rv)))
            rng.choice(rv).append(op)
    elif k == "drop":
        for _ in range(rng.randint(1, 3)):
            t = rng.choice(rv)
            if len(t) > 1:
                t.pop(rng.randrange(len(t)))
    elif k == "split":
        ops = [x for t in rv for x in t]
        n = rng.randint(2, 6)
        rv = [ops[x::n] for x in range(n) if ops[x::n]]
        if len(rv) < 2:
            rv.append([dict(ops[0])])
    return rv


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        asy = rng.random() < 0.5
        libs = rng.choice([["requests"], ["httpx"], ["func"], ["requests", "httpx"], list(LIBS), list(LIBS), ["file"], list(LIBS) + ["file"]])
        deco = [{"requests": "bt.snapshot_requests()", "httpx": "bt.snapshot_httpx()", "func": "bt.snapshot_functions(fxc.get, fxc.put)"}[x] for x in libs if x != "file"]
        rng.shuffle(deco)
        unit = {"kind": "func", "fn": "f0", "name": "test/a", "async": asy, "deps": [], "deco": deco}
        if rng.random() < 0.3:
            m = {"m": "test_m0", "async": asy, "deps": [], "deco": deco}
            unit = {"kind": "class", "cls": "K0", "methods": [m], "instances": ["test/a"]}
        spec = {"units": [unit], "order": ["test/a/m0" if unit["kind"] == "class" else "test/a"], "head": HEAD}
        proj = P.Project(d, spec, extra={"test/fxc.py": FXC})
        w = World(ctx, proj, asy, libs)
        threads = workload(rng, asy, libs)
        args = [rng.choice(["-s", "-S"]), "-a"]
        for step in range(rng.randint(3, 6)):
            if not w.run(rng, threads, args):
                return
            if rng.random() < 0.6:
                w.version += 1
            if rng.random() < 0.6:
                threads = change(rng, threads, asy, libs)
            args = list(rng.choice([[], [], [], ["-a"], ["-s", "-a"], ["-S", "-a"]]))
        ctx.sample({"case": i, "spec": spec, "history": w.history, "threads": [[list(ident(o)) for o in t] for t in threads]})
    finally:
        ctx.drop(d)


class World:
    def __init__(self, ctx, proj, asy, libs):
        self.ctx, self.proj, self.asy, self.libs = ctx, proj, asy, libs
        self.version = 1
        self.held = {}
        self.history = []

    def run(self, rng, threads, args):
        ctx, proj = self.ctx, self.proj
        c = proj.cases[0]
        mode = "tasks" if self.asy and rng.random() < 0.7 else "threads"
        if mode == "threads":
            threads = [[dict(o, lib=lib_of(o)) for o in t] for t in threads]
        threads = [[dict(o, name=f"f{n}-{k}") if o["lib"] == "file" else o for k, o in enumerate(t)] for n, t in enumerate(threads)]
        proj.behave = {c.key: {"lines": ["begin"], "ret": ["int", 1],
                               "conc": {"threads": threads, "mode": mode, "p": rng.choice([0, 0.02, 0.1, 0.3]), "seed": rng.randrange(10 ** 9)}},
                       "functions": {"version": self.version}}
        web.hits(BASE[0], self.version, True)

        def call():
            import booktest.cli
            rv = booktest.cli.main(list(args))
            # all is as it was
            out = []
            for lib in ("requests", "httpx"):
                op = {"lib": lib, "method": "GET", "path": "/text/after", "headers": {}}
                out.append(httpops.sync_request(op, BASE[0])["text"])
            from test import fxc
            out.append([type(fxc.get).__name__, type(fxc.put).__name__])
            rt.log(ev="after", seen=out)
            return rv

        before = proj.snapshots()
        o = proj.invoke(args, env={"VF_BASE": BASE[0]}, call=call, quiesce=8)
        hits = web.hits(BASE[0], self.version, True)
        self.history.append([args, mode, self.version])
        ops = [(op, [n, k]) for n, t in enumerate(threads) for k, op in enumerate(t)]
        ctx.count("runs")
        ctx.count("operations", len(ops))
        ctx.nontrivial([proj.spec, threads, args, mode, sorted(map(str, self.held))])
        for e in o.events:
            if e["ev"] == "perturbed":
                ctx.distinct("interleavings", e["crc"])
                ctx.count("lines_perturbed", e["n"])
                ctx.count("runs_with_several_threads", e["threads"] > 1)
        why = self.judge(o, ops, args, hits, before)
        if why:
            ctx.violation(f"{why} (arguments {args}, {mode})", threads=threads, spec=proj.spec, history=self.history, hits=hits, events=o.events[-60:],
                          stdout=o.stdout[-1500:], stderr=o.stderr[-3000:])
            return False
        return True

    def answers(self, op, n):
        """what the server or function would give the n-th time"""
        if op["lib"] == "func":
            x = op["args"][0]
            return [x, self.version] if op["f"] == "fxc.get" else {"put": x, "v": self.version}
        h, out = web.answer(op["method"], op["path"], web.raw_body(op), self.version, n)[1:]
        return [h["X-Tag"], None if "gzip" in op["path"] else base64.b64encode(out).decode()]

    def judge(self, o, ops, args, hits, before):
        ctx, proj = self.ctx, self.proj
        c = proj.cases[0]
        if o.hung:
            return "the run does not end"
        capture = "-s" in args or "-S" in args
        after = [e["seen"] for e in o.events if e["ev"] == "after"]
        want = web.answer("GET", "/text/after", b"", self.version, 0)[2].decode()
        if after != [[want, want, ["function", "function"]]]:
            return f"after the run real requests give {after} instead of {want!r}"
        hits = [(m, p) for m, p, b in hits if p != "/text/after"]
        seen = {tuple(e["n"]): e for e in o.events if e["ev"] == "resp"}
        if len(seen) != len(ops):
            return f"{len(seen)} of {len(ops)} operations ended"
        held = {} if "-S" in args else self.held
        groups = collections.OrderedDict()
        for op, at in ops:
            groups.setdefault(ident(op), []).append((op, tuple(at)))
        real = collections.Counter()
        calls = collections.Counter()
        store = {}
        fine = True
        for k, items in groups.items():
            op = items[0][0]
            known = held.get(k) or []
            n = len(items)
            got = [seen[at] for _, at in items]
            refused = [e for e in got if "refused" in e]
            good = [[e["seen"]["headers"]["X-Tag"], None if "gzip" in op["path"] else e["seen"]["body"]] if k[0] not in ("func", "file") else e["seen"]
                    for e in got if "seen" in e]
            if k[0] == "file":
                base = os.path.join(proj.out, c.name + ("" if k[1] == "file" else ".tmp"))
                want, miss = [os.path.abspath(os.path.join(base, x["name"])) for x, _ in items], 0
                ctx.count("files_written", n)
            elif k[0] == "func":
                # no order: one result for all equal calls
                if known:
                    want, miss = [known[0]] * n, 0
                    ctx.count("replayed", n)
                elif capture:
                    want, miss = [self.answers(op, 1)] * n, n
                    ctx.count("captured", n)
                else:
                    want, miss = [], n
                if capture:
                    calls[(op["f"], json.dumps(op["args"]))] += miss
                if good:
                    store[k] = known[:1] or [self.answers(op, 1)]
            else:
                use = known[:n]
                miss = n - len(use)
                fresh = [self.answers(op, x + 1) for x in range(miss)] if capture else []
                want = use + fresh
                ctx.count("replayed", len(use))
                ctx.count("captured", len(fresh))
                if capture:
                    real[(op["method"], op["path"])] += miss
            key = lambda v: json.dumps(v)
            if sorted(map(key, good)) != sorted(map(key, want)):
                return f"{n} times {k} give {good} instead of {want}; refused {[e.get('text') for e in refused]}"
            if refused and (capture or k[0] == "file" or len(refused) != miss):
                return f"{k} is refused: {refused[0]['refused']} {refused[0]['text']}"
            if refused:
                fine = False
                ctx.count("refused", len(refused))
                for e in refused:
                    if "missing snapshot" not in e["text"]:
                        return f"{k} is refused by {e['refused']} {e['text']}"
        if collections.Counter(hits) != real:
            return f"the server was asked {sorted(collections.Counter(hits).items())} instead of {sorted(real.items())}"
        got = collections.Counter((e["f"], json.dumps(e["args"])) for e in o.events if e["ev"] == "call")
        if got != calls:
            return f"the functions were called {sorted(got.items())} instead of {sorted(calls.items())}"
        recs = dict(proj.records())
        res = recs.get(c.name)
        ctx.distinct("results", str(res))
        if not fine:
            if res != "FAIL" or o.rc == 0:
                return f"requests were refused, but the result is {res}, {o.rc}"
            if proj.snapshots() != before:
                return "a failed run changes the snapshots"
            return None
        if res == "FAIL":
            return "the test fails"
        if (o.rc == 0) != (res == "OK"):
            return f"the result is {res} and the status {o.rc}"
        # the same answers as accepted before: no difference
        out = P.slurp(os.path.join(proj.books if "-a" in args else proj.out, c.name + ".md"))
        listed, section = {}, None
        for x in out.split("\n"):
            if x.startswith("# "):
                section = SECTIONS.get(x[2:])
            elif section and x.startswith(" * "):
                listed.setdefault(section, []).append(x)
        d = {}
        for lib in ("requests", "httpx"):
            p = os.path.join(proj.out, c.name, f".{lib}.json")
            q = os.path.join(proj.books, c.name, f".{lib}.json")
            src = q if "-a" in args else p
            if lib in self.libs:
                if not os.path.exists(src):
                    return f"{src} is missing"
                d[lib] = json.loads(P.slurp(src))
        d["func"] = dict(store)
        for lib in [x for x in self.libs if x != "file"]:
            have = listed.get(lib, [])
            if len(have) != len(set(have)) or len(have) != len(d[lib]):
                return f"the report lists {have} for {len(d[lib])} snapshots of {lib}"
            ctx.count("snapshots_listed", len(have))
        del d["func"]
        store.update(self.stored(d))
        for k, items in groups.items():
            if k[0] == "file":
                for op, at in items:
                    q = seen[at]["seen"]
                    if k[1] == "file" and not os.path.exists(os.path.join(proj.out, c.name + ".md")):
                        # accepted along with the output
                        q = os.path.join(proj.books, c.name, op["name"])
                    if P.slurp(os.path.join(q, "x") if k[1] == "tmp_dir" else q) != op["name"]:
                        return f"{q} is not as written"
            if k[0] in ("func", "file"):
                continue
            have = store.get(k) or []
            if len(have) != len(items):
                return f"{len(items)} times {k} have {len(have)} snapshots"
            good = [[seen[at]["seen"]["headers"]["X-Tag"], None if "gzip" in k[2] else seen[at]["seen"]["body"]] for _, at in items]
            if sorted(map(json.dumps, have)) != sorted(map(json.dumps, good)):
                return f"the snapshots of {k} are {have}, the answers were {good}"
        for k in store:
            if k not in groups:
                return f"{k} is stored, but not asked"
        ctx.count("snapshots_compared", len(store))
        if "-a" in args:
            if res != "OK":
                return f"the result is {res} with -a"
            self.held = store
        return None

    def stored(self, d):
        """{ident: answers by order} of the files"""
        rv = {}
        for lib, j in d.items():
            for v in j.values():
                r = v["request"]
                k = (lib, r["method"], r["url"][len(BASE[0]):])
                h = {a.lower(): b for a, b in v["response"]["headers"].items()}
                b = v["response"]["content"]
                if lib == "requests" and v["response"].get("contentEncoding") != "base64":
                    b = base64.b64encode(b.encode()).decode()
                rv.setdefault(k, []).append((r.get("order", 0), [h["x-tag"], None if "gzip" in k[2] else b]))
        for k, v in rv.items():
            v.sort(key=lambda x: x[0])
            rv[k] = [x[1] for x in v]
        return rv
