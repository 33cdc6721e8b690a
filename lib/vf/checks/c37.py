"""Blocks of snapshots and mocks within a test nest and follow one another."""
import json
import os

from vf import proj as P
from vf import rt
from vf import web
from vf.checks import c21

PLAN = {"quick": {"cases": 120, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
BASE = []
NAMES = ["VF_A", "VF_B", "VF_C"]
VALUES = ["", "1", "a b", "ä", "x=y"]
FUNCS = {"fxa.get": "get", "fxa.put": "put", "fxb.load": "load", "fxa.SVC.find": "Svc.find"}
FXR = '''
from test import fxa, fxb

REAL = {"fxa.get": fxa.get, "fxa.put": fxa.put, "fxb.load": fxb.load, "fxa.SVC.find": fxa.SVC.find}
'''
HEAD = "from test import fxa, fxb, fxr"
KINDS = ["mock_env", "mock_missing_env", "snapshot_env", "mock_functions", "snapshot_functions", "requests", "httpx"]
# what a test writes about its blocks
HEADS = {"snapshot_env": "env snaphots:", "snapshot_functions": "function call snapshots:", "requests": "request snaphots:", "httpx": "httpx snaphots:"}


def prepare(ctx):
    BASE.append(web.serve())


def context(rng):
    k = rng.choice(KINDS)
    if k == "mock_env":
        return [k, {n: rng.choice([None] + VALUES) for n in rng.sample(NAMES, rng.randint(1, 2))}]
    if k == "mock_missing_env":
        return [k, {n: rng.choice(VALUES) for n in rng.sample(NAMES, rng.randint(1, 2))}]
    if k == "snapshot_env":
        return [k, rng.sample(NAMES, rng.randint(1, 2))]
    if k == "mock_functions":
        return [k, {f: rng.choice(["fake0", "fake1"]) for f in rng.sample(sorted(FUNCS), rng.randint(1, 2))}]
    if k == "snapshot_functions":
        return [k, rng.sample(sorted(FUNCS), rng.randint(0, 3))]
    return [k, None]


def leaf(rng, asy, inside):
    k = rng.choice(["env", "env", "call", "call", "http", "http", "setenv", "sleep"] + ["explicit"] * inside.count("snapshot_functions"))
    if k == "env":
        return [k, NAMES]
    if k == "setenv":
        return [k, rng.choice(NAMES), rng.choice([None] + VALUES)]
    if k in ("call", "explicit"):
        return [k, rng.choice(sorted(FUNCS)), [rng.choice([1, "x", None, [2]])]]
    if k == "sleep":
        return [k, rng.choice([0, 0.001])]
    lib = rng.choice(["requests", "httpx"] + (["ahttpx"] if asy else []))
    more = {"kept": True} if lib != "ahttpx" and rng.random() < 0.5 else {}
    return ["http", {**more, "lib": lib, "method": "GET", "path": f"/{rng.choice(['text', 'json', 'bin', 'err'])}/{rng.choice('abc')}", "headers": {}}]


def block(rng, asy, depth, inside=(), ids=None):
    rv = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        if depth and rng.random() < 0.45:
            c = context(rng)
            if c[0] in ("mock_env", "mock_functions") and rng.random() < 0.3:
                # an object that is used again, but not within itself
                ids.append(c + [len(ids)])
                c = ids[-1]
            elif ids and rng.random() < 0.15:
                c = rng.choice(ids)
                if c[2] in inside:
                    c = context(rng)
            mark = (c[0],) + ((c[2],) if len(c) > 2 else ())
            rv.append(["with", c, block(rng, asy, depth - 1, inside + mark, ids), rng.random() < 0.5])
        elif depth < 3 and rng.random() < 0.06:
            rv.append(["raise"])
        else:
            rv.append(leaf(rng, asy, inside))
    return rv


def code(c):
    """the decorator for a context"""
    k, arg = c[:2]
    if k == "requests":
        return "bt.snapshot_requests()"
    if k == "httpx":
        return "bt.snapshot_httpx()"
    if k in ("mock_env", "mock_missing_env"):
        return f"bt.{k}({arg!r})"
    if k == "snapshot_env":
        return f"bt.snapshot_env({', '.join(map(repr, arg))})"
    if k == "snapshot_functions":
        return f"bt.snapshot_functions({', '.join(arg)})"
    return "bt.mock_functions({" + ", ".join(f"{f}: fxa.{m}" for f, m in arg.items()) + "})"


class Missing(Exception):
    pass


class Boom(Exception):
    pass


class Model:
    """the state of one execution of a test"""

    def __init__(self, env, held, flags, version):
        self.env = {n: env.get(n) for n in NAMES}
        self.capture = "-s" in flags or "-S" in flags
        self.known = {"env": {}, "func": {}, "requests": {}, "httpx": {}} if "-S" in flags or held is None else held
        self.version = version
        self.funcs = {f: None for f in FUNCS}
        self.http = {"requests": None, "httpx": None}
        self.obs, self.calls, self.hits, self.heads = [], [], [], []
        self.stored = {"env": {}, "func": {}, "requests": {}, "httpx": {}}
        self.replayed = self.captured = 0

    def call(self, owner, f, args):
        """a call of f, where owner is what stands for it"""
        if owner is not None and owner["kind"] == "mock_functions":
            return ["fake0", args, {}] if owner["arg"][f] == "fake0" else "fake1"
        if owner is not None:
            k = c21.key(FUNCS[f], args, {})
            if k in self.known["func"]:
                self.replayed += 1
                owner["calls"][k] = self.known["func"][k]
                return self.known["func"][k]
            if not self.capture:
                raise Missing()
        self.calls.append([f, args])
        v = c21.real_value(f, args, {}, {"version": self.version})
        if owner is not None:
            self.captured += 1
            owner["calls"][k] = v
        return v

    def request(self, op):
        lib = {"ahttpx": "httpx"}.get(op["lib"], op["lib"])
        owner = self.http[lib]
        if owner is not None:
            n = sum(1 for p, _ in owner["calls"] if p == op["path"])
            k = (op["path"], n)
            if k in self.known[lib]:
                self.replayed += 1
                owner["calls"][k] = self.known[lib][k]
                return self.known[lib][k]
            if not self.capture:
                raise Missing()
        self.hits.append(["GET", op["path"]])
        v = web.answer("GET", op["path"], b"", self.version, 0)[1]["X-Tag"]
        if owner is not None:
            self.captured += 1
            owner["calls"][k] = v
        return v

    def enter(self, c, opened):
        kind, arg = c[:2]
        me = {"kind": kind, "arg": arg, "calls": {}}
        if "env" in kind:
            me["old"] = {n: self.env[n] for n in arg}
            if kind == "snapshot_env":
                for n in arg:
                    if n in self.known["env"]:
                        me["calls"][n] = self.known["env"][n]
                        self.replayed += 1
                    elif self.capture:
                        me["calls"][n] = self.env[n]
                        self.captured += 1
                    else:
                        raise Missing()
                self.env.update(me["calls"])
            else:
                for n, v in arg.items():
                    if kind == "mock_env" or (self.env[n] is None and not self.capture):
                        self.env[n] = v
        elif "functions" in kind:
            me["old"] = {f: self.funcs[f] for f in arg}
            for f in arg:
                self.funcs[f] = me
        else:
            me["old"] = self.http[kind]
            self.http[kind] = me
        return me

    def leave(self, me):
        kind = me["kind"]
        if "env" in kind:
            self.env.update(me["old"])
        elif "functions" in kind:
            self.funcs.update(me["old"])
        else:
            self.http[kind] = me["old"]
        if kind in HEADS:
            store = {"snapshot_env": "env", "snapshot_functions": "func"}.get(kind, kind)
            self.stored[store].update(me["calls"])
            self.heads.append((kind, [[str(k), v] for k, v in me["calls"].items()]))

    def run(self, nodes, snapshots=()):
        for node in nodes:
            kind = node[0]
            if kind == "env":
                self.obs.append({n: self.env[n] for n in NAMES})
            elif kind == "setenv":
                self.env[node[1]] = node[2]
            elif kind == "call":
                self.obs.append(self.call(self.funcs[node[1]], node[1], node[2]))
            elif kind == "explicit":
                self.obs.append(self.call(snapshots[-1], node[1], node[2]))
            elif kind == "http":
                self.obs.append(self.request(node[1]))
            elif kind == "raise":
                raise Boom()
            elif kind == "with":
                try:
                    me = self.enter(node[1], None)
                    try:
                        self.run(node[2], snapshots + (me,) if me["kind"] == "snapshot_functions" else snapshots)
                    finally:
                        self.leave(me)
                except (Boom, Missing) as e:
                    if not node[3]:
                        raise
                    self.obs.append("caught " + ("Boom" if isinstance(e, Boom) else "missing"))


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        units = [{"kind": "func", "fn": f"f{k}", "name": f"test/{'abc'[k]}", "async": rng.random() < 0.5, "deps": []} for k in range(rng.randint(1, 3))]
        order = [u["name"] for u in units]
        if rng.random() < 0.3:
            units.append({"kind": "class", "cls": "K0", "methods": [{"m": "test_m0", "async": rng.random() < 0.5, "deps": []}], "instances": ["test/k"]})
            order.append("test/k/m0")
        spec = {"units": units, "order": order, "head": HEAD}
        decos = {}
        for u in spec["units"]:
            for x in u["methods"] if u["kind"] == "class" else [u]:
                cs = [context(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
                x["deco"] = [code(c) for c in cs]
                ref = f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"]
                decos[ref] = (cs, x["async"])
        proj = P.Project(d, spec, extra={"test/fxa.py": c21.FXA, "test/fxb.py": c21.FXB, "test/fxr.py": FXR})
        held, accepted, history, broken = {}, {}, [], set()
        version = 1
        env = {n: rng.choice(VALUES) for n in NAMES if rng.random() < 0.6}
        for c in proj.cases:
            proj.behave[c.key] = {"blocks": block(rng, decos[c.ref][1], 3, (), []), "ret": ["int", 1]}
        for step in range(rng.randint(3, 6)):
            if step:
                for c in proj.cases:
                    if rng.random() < 0.3:
                        b = proj.behave[c.key]
                        old = b["blocks"]
                        k = rng.random()
                        b["blocks"] = block(rng, decos[c.ref][1], 3, (), []) if k < 0.3 else \
                            old + [leaf(rng, False, ())] if k < 0.6 else old[:-1] or old
                if rng.random() < 0.5:
                    version += 1
                if rng.random() < 0.4:
                    env = {n: rng.choice(VALUES) for n in NAMES if rng.random() < 0.6}
            args = ["-s", "-a"] if not step else list(rng.choice([[], [], [], ["-a"], ["-s", "-a"], ["-s", "-a"], ["-S", "-a"], ["-s"]]))
            if rng.random() < 0.2:
                args.append(rng.choice(["-p1", "-p2"]))
            proj.behave["functions"] = {"version": version}
            history.append([args, version, env])
            if not one(ctx, proj, decos, args, held, accepted, env, version, history):
                return
        ctx.sample({"case": i, "spec": spec, "behaviours": proj.behave, "history": history})
    finally:
        ctx.drop(d)


def one(ctx, proj, decos, args, held, accepted, env, version, history):
    def call():
        import booktest.cli
        from vf import httpops
        import sys
        sys.path.insert(0, os.getcwd())
        real = {f: rt.target(f) for f in FUNCS}
        rv = booktest.cli.main(list(args))
        out = []
        for lib in ("requests", "httpx"):
            for kept in (False, True):
                out.append(httpops.sync_request({"lib": lib, "method": "GET", "path": "/text/after", "headers": {}, "kept": kept}, BASE[0])["headers"]["X-Tag"])
        rt.log(ev="after", funcs=[f for f in FUNCS if rt.target(f) != real[f]], env={n: os.environ.get(n) for n in NAMES}, http=out)
        return rv

    web.hits(BASE[0], version, False)
    o = proj.invoke(args + ["*"], call=call, quiesce=8, env=dict(env, VF_BASE=BASE[0]))
    hits = [[m, p] for m, p, b in web.hits(BASE[0], version, False) if p != "/text/after"]
    ctx.count("runs")
    ctx.nontrivial([proj.spec, proj.behave, args, env, sorted(map(repr, held.items()))])
    recs = dict(proj.records())
    why = None
    if o.hung or o.rc not in (0, 255):
        why = f"the run ended with status {o.rc}: {o.stderr[-500:]}"
    want_hits = []
    for n in ([c.name for c in proj.cases] if not why else ()):
        c = proj.by[n]
        b = proj.behave[c.key]
        m = Model(env, held.get(n), args, version)
        # the decorators are blocks around it
        nodes = b["blocks"]
        for x in reversed(decos[c.ref][0]):
            nodes = [["with", x, nodes, False]]
        want = "OK"
        try:
            m.run(nodes)
        except (Boom, Missing):
            want = "FAIL"
        ctx.count("observations", len(m.obs))
        ctx.count("replayed", m.replayed)
        ctx.count("captured", m.captured)
        ctx.count("blocks_left", len(m.heads))
        ctx.count("tests_" + ("failing" if want == "FAIL" else "passing"))
        want_hits += m.hits
        got = [e["v"] for e in o.events if e["ev"] == "obs" and e["case"] == c.key]
        if got != m.obs:
            k = [x == y for x, y in zip(got + [None], m.obs + [None])].index(False) if got[:len(m.obs)] != m.obs else len(m.obs)
            why = f"{n}: observation {k} is {(got + [None])[k]!r} instead of {(m.obs + [None])[k]!r}"
            break
        if want == "FAIL":
            if recs.get(n) != "FAIL":
                why = f"{n} is {recs.get(n)} instead of FAIL"
                break
            continue
        # one name can be captured with several values, but has only one on replay
        text = json.dumps([m.obs, m.heads])
        same = accepted.get(n) == text
        ctx.count("as_accepted", same)
        if recs.get(n) not in (("OK",) if "-a" in args or same else ("OK", "DIFF")):
            why = f"{n} is {recs.get(n)}, but it {'is as accepted' if same else 'is accepted'}"
            break
        where = [x for x in (proj.out, proj.books) if os.path.exists(os.path.join(x, n + ".md"))][0]
        heads = []
        for x in P.slurp(os.path.join(where, n + ".md")).split("\n"):
            if x.startswith("# "):
                heads.append([x[2:], 0])
            elif x.startswith(" * "):
                heads[-1][1] += 1
        if heads != [[HEADS[k], len(v)] for k, v in m.heads]:
            why = f"{n} lists {heads} instead of {m.heads}"
            break
        have = stored(where, n)
        lack = {k: v for k, v in m.stored.items() if have[k] != v}
        if lack:
            why = f"{n}: the stored snapshots are { {k: have[k] for k in lack} } instead of {lack}"
            break
        ctx.count("captures_compared")
        if where == proj.books:
            held[n] = m.stored
            accepted[n] = text
        elif "-a" in args and recs[n] != "OK":
            why = f"{n} is not accepted"
            break
    if not why and sorted(hits) != sorted(want_hits):
        why = f"the server was asked {sorted(hits)} instead of {sorted(want_hits)}"
    if not why:
        a = [e for e in o.events if e["ev"] == "after"]
        tag = web.answer("GET", "/text/after", b"", version, 0)[1]["X-Tag"]
        if len(a) != 1 or a[0]["funcs"] or a[0]["env"] != {n: env.get(n) for n in NAMES} or a[0]["http"] != [tag] * 4:
            why = f"after the run: {a}"
    if why:
        ctx.violation(f"{why} (arguments {args})", decorators=decos, spec=proj.spec, behaviours=proj.behave, history=history, held=repr(held),
                      stdout=o.stdout[-1500:], stderr=o.stderr[-2500:])
        return False
    return True


def stored(where, n):
    d = os.path.join(where, n)
    rv = {"env": {}, "func": {k: v[0] for k, v in c21.stored(None, n, where).items()}, "requests": {}, "httpx": {}}
    p = os.path.join(d, ".env.json")
    if os.path.exists(p):
        rv["env"] = json.loads(P.slurp(p))
    for lib in ("requests", "httpx"):
        p = os.path.join(d, f".{lib}.json")
        if os.path.exists(p):
            for v in json.loads(P.slurp(p)).values():
                r = v["request"]
                h = {a.lower(): b for a, b in v["response"]["headers"].items()}
                rv[lib][(r["url"][len(BASE[0]):], r.get("order", 0))] = h["x-tag"]
    return rv
