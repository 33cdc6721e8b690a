"""Damaged snapshots and state files: contained, reported, recoverable."""
import json
import os
import re

from vf import proj as P
from vf import projgen as G
from vf import rt
from vf import stream as S
from vf import web
from vf.checks import c21
from vf.core import diff_trees

PLAN = {"quick": {"cases": 90, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
NAMES = ["VF_A", "VF_B", "VF_C"]
BASE = []
HEAD = c21.HEAD
EXTRA = {"test/fxa.py": c21.FXA, "test/fxb.py": c21.FXB}


def prepare(ctx):
    BASE.append(web.serve())


def decorators(rng):
    rv = []
    for k in rng.sample(["env", "functions", "requests", "httpx"], rng.choice([0, 1, 1, 1, 2])):
        if k == "env":
            rv.append(f"bt.snapshot_env({', '.join(map(repr, rng.sample(NAMES, rng.randint(1, 3))))})")
        elif k == "functions":
            rv.append("bt.snapshot_functions(fxa.get, fxb.load, fxa.SVC.find)")
        else:
            rv.append(f"bt.snapshot_{k}()")
    return rv


def behaviour(rng, key, decos):
    b = {"lines": [f"{key} begins"] + [rng.choice(["one", "two  words", "3.14", "", "ä€😀", "a | b", "end."]) for _ in range(rng.randint(0, 4))],
         "env": NAMES, "ret": G.value(rng, key)}
    if b["ret"][0] == "none":
        b["ret"] = ["str", key]
    text = " ".join(decos)
    if "functions" in text:
        b["calls"] = [[rng.choice(["fxa.get", "fxb.load", "fxa.SVC.find"]), [rng.choice(["x", 1, None, [2]])], {}, False]
                      for _ in range(rng.randint(1, 3))]
        b["print_results"] = True
    http = []
    for lib in ("requests", "httpx"):
        if lib in text:
            for _ in range(rng.randint(1, 2)):
                http.append({"lib": lib, "method": rng.choice(["GET", "POST"]),
                             "path": f"/{rng.choice(['text', 'json', 'bin', 'err'])}/{rng.randrange(9)}", "headers": {}})
    if http:
        b["http"] = http
        b["print_results"] = True
    if rng.random() < 0.3:
        b["files"] = {"a.txt": f"{key}\n"}
    return b


# ---------------------------------------------------------------- damage

def harm_bytes(rng, x):
    """(kind, bytes) that differ from x"""
    for _ in range(20):
        k = rng.choice(["cut", "flip", "insert", "remove", "empty", "garbage", "latin", "crlf", "cr", "nonl", "more", "twice", "bom", "nul", "wide"])
        n = rng.randrange(len(x) + 1)
        if k == "cut":
            y = x[:n]
        elif k == "flip":
            y = x[:n] + bytes([rng.randrange(256)]) + x[n + 1:]
        elif k == "insert":
            y = x[:n] + bytes(rng.randrange(256) for _ in range(rng.randint(1, 6))) + x[n:]
        elif k == "remove":
            y = x[:n] + x[n + rng.randint(1, 9):]
        elif k == "empty":
            y = b""
        elif k == "garbage":
            y = bytes(rng.randrange(256) for _ in range(rng.randint(1, 60)))
        elif k == "latin":
            y = x[:n] + "äö".encode("latin-1") + x[n:]
        elif k == "crlf":
            y = x.replace(b"\n", b"\r\n")
        elif k == "cr":
            y = x[:n] + x[n:].replace(b"\n", b"\r")
        elif k == "nonl":
            y = x[:-1] if x.endswith(b"\n") else x + b"\n"
        elif k == "more":
            y = x + rng.choice([b"and more\n", b"\n", b"\xff", b"<<<<<<< HEAD\n", b"x"])
        elif k == "twice":
            y = x + x
        elif k == "bom":
            y = b"\xef\xbb\xbf" + x
        elif k == "nul":
            y = x[:n] + b"\0" * rng.randint(1, 600) + x[n:]
        else:
            y = x[:n] + rng.choice(["\u2028", "\x85", "\x0c", "\u00a0"]).encode() + x[n:]
        if y != x:
            return k, y
    return "more", x + b"!"


ODD = [None, 8080, 1.5, True, [], ["a"], {}, {"a": 1}, "", "x", "a\0b", "\ud800"]


def harm_json(rng, x):
    """valid JSON that is not what was stored"""
    try:
        j = json.loads(x)
    except ValueError:
        return None
    if rng.random() < 0.35:
        return "other", json.dumps(rng.choice(ODD)).encode()

    def walk(v, path=()):
        yield path
        for k in (v if isinstance(v, dict) else range(len(v)) if isinstance(v, list) else ()):
            yield from walk(v[k], path + (k,))
    paths = [p for p in walk(j) if p]
    if not paths:
        return None
    p = rng.choice(paths)
    at = j
    for k in p[:-1]:
        at = at[k]
    what = rng.choice(["odd", "odd", "drop", "add"])
    if what == "odd":
        at[p[-1]] = rng.choice(ODD)
    elif what == "drop":
        del at[p[-1]]
    elif isinstance(at, dict):
        at["added"] = rng.choice(ODD)
    else:
        at.append(rng.choice(ODD))
    return what, json.dumps(j).encode()


def of_case(proj, rel):
    for c in proj.cases:
        if rel == c.name + ".md" or rel.startswith(c.name + "/"):
            return c.name


def harm(ctx, rng, proj, golden):
    """damages some snapshot files; {case: {"md": damaged text, "json": bool}}"""
    rv = {}
    victims = rng.sample(proj.cases, rng.randint(1, max(1, len(proj.cases) - 1)))
    for c in victims:
        mine = sorted(k for k, v in golden.items() if isinstance(v, bytes) and of_case(proj, k) == c.name)
        md = [k for k in mine if k.endswith(".md")]
        js = [k for k in mine if k.endswith(".json")]
        for k in {rng.choice(js if js and rng.random() < 0.6 else md) for _ in range(rng.choice([1, 1, 2]))}:
            p = os.path.join(proj.books, k)
            what = rng.random()
            if what < 0.1:
                os.unlink(p)
                kind = "gone"
            elif what < 0.17 and k in js and "/.functions/" in k:
                with open(os.path.join(os.path.dirname(p), rng.choice(["junk.json", "x.tmp"])), "wb") as f:
                    f.write(rng.choice([b"", b"{", b"\xff", b"[]"]))
                kind = "stray"
            else:
                kind, y = (k in js and rng.random() < 0.5 and harm_json(rng, golden[k])) or harm_bytes(rng, golden[k])
                with open(p, "wb") as f:
                    f.write(y)
            ctx.distinct("damage_kinds", [kind, k in js, k.rsplit("/", 1)[-1][:6] if k in js else ""])
            ctx.count("files_damaged")
            d = rv.setdefault(c.name, {"md": False, "json": False, "what": []})
            d["json" if k in js else "md"] = True
            d["what"].append([kind, k])
    return rv


def lines(x):
    """the text of a snapshot as any editor shows it"""
    return x.decode("utf-8", "backslashreplace").replace("\r\n", "\n").replace("\r", "\n")


def program(text):
    ls = text.split("\n")[:-1]
    rv, n = [], 0
    while n < len(ls):
        if ls[n] == "" and n + 2 < len(ls) and ls[n + 1].startswith("# ") and ls[n + 1].endswith(":") and ls[n + 2] == "":
            rv.append(["h", 1, ls[n + 1][2:]])
            n += 3
        else:
            rv.append(["tln", ls[n]])
            n += 1
    return rv


def undated(tree):
    """without the time at which the server answered"""
    return {k: re.sub(rb'"date"[:,]\s*"[^"]*"', b"", v, flags=re.I) if k.endswith((".requests.json", ".httpx.json")) and v else v
            for k, v in tree.items()}


class Broken(Exception):
    pass


class World:
    def __init__(self, ctx, rng, d):
        self.ctx, self.rng = ctx, rng
        spec = G.spec(rng, n=rng.randint(2, 5), dep=0.4)
        spec["head"] = HEAD
        self.proj = P.Project(d, spec, extra=EXTRA)
        for u in spec["units"]:
            for x in u["methods"] if u["kind"] == "class" else [u]:
                x["deco"] = decorators(rng)
        with open(os.path.join(self.proj.dir, "test", "x_book.py"), "w") as f:
            f.write(P.module_code(spec))
        decos = {}
        for u in spec["units"]:
            for x in u["methods"] if u["kind"] == "class" else [u]:
                decos[f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"]] = x["deco"]
        for c in self.proj.cases:
            self.proj.behave[c.key] = behaviour(rng, c.key, decos[c.ref])
        self.env = {n: rng.choice(["", "1", "a b", "ä"]) for n in NAMES if rng.random() < 0.7}
        self.history = []
        self.hits = []

    def run(self, args, stdin=""):
        def call():
            import booktest.cli
            rv = 1
            try:
                rv = booktest.cli.main(list(args))
            except SystemExit as e:
                rv = e.code
            import sys
            seen = {"env": {k: os.environ.get(k) for k in NAMES}}
            fxa, fxb = sys.modules.get("test.fxa"), sys.modules.get("test.fxb")
            if fxa and fxb:
                seen["functions"] = [type(x).__name__ for x in (fxa.get, fxb.load, fxa.SVC.find)]
            out = []
            from vf import httpops
            for lib in ("requests", "httpx"):
                try:
                    out.append(httpops.sync_request({"lib": lib, "method": "GET", "path": f"/text/after/{lib}", "headers": {}}, BASE[0])["status"])
                except BaseException as e:
                    out.append(repr(e))
            seen["http"] = out
            rt.log(ev="after", **seen)
            return rv
        o = self.proj.invoke(args, env=dict(self.env, VF_BASE=BASE[0]), stdin=stdin, call=call, quiesce=8)
        self.hits = [h for h in web.hits(BASE[0], 0, False) if not h[1].startswith("/text/after/")]
        self.history.append(list(args))
        self.ctx.count("runs")
        self.o = o
        if o.hung or o.rc not in (0, 255):
            raise Broken(f"the run ended with status {o.rc}: {(o.stderr or o.stdout)[-500:]}")
        after = [e for e in o.events if e["ev"] == "after"]
        if len(after) != 1:
            raise Broken("the command did not return")
        a = after[0]
        if a["env"] != {k: self.env.get(k) for k in NAMES}:
            raise Broken(f"after the run the environment is {a['env']} instead of {self.env}")
        if set(a.get("functions", [])) - {"function", "method"}:
            raise Broken(f"after the run functions are still replaced: {a['functions']}")
        if a["http"] != [200, 200]:
            raise Broken(f"after the run requests get {a['http']}")
        return o

    def results(self, repeated=False):
        rv = {}
        for n, r in self.proj.records():
            if n in rv and not (repeated and rv[n] == r):
                raise Broken(f"{n} is recorded twice: {self.proj.records()}")
            if n in self.proj.by:
                rv[n] = r
        return rv

    def all_ok(self, args, why):
        o = self.run(args)
        res = self.results()
        if set(res) != set(self.proj.by) or set(res.values()) != {"OK"} or o.rc != 0:
            raise Broken(f"{why}: the results are {res} with status {o.rc}")

    def same(self, golden, why):
        golden, now = undated(golden), undated(self.proj.snapshots())
        if now != golden:
            raise Broken(f"{why}: the snapshots differ: {diff_trees(golden, now)[:5]}")

    def restore(self, golden):
        for k in self.proj.snapshots():
            p = os.path.join(self.proj.books, k)
            if k not in golden and os.path.isfile(p):
                os.unlink(p)
        for k, v in golden.items():
            if isinstance(v, bytes):
                p = os.path.join(self.proj.books, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v)


def case(ctx, rng, i):
    d = ctx.newdir()
    w = World(ctx, rng, d)
    web.hits(BASE[0], 0, False)
    detail = []
    try:
        history(ctx, rng, w, detail)
    except Broken as e:
        o = getattr(w, "o", None)
        ctx.violation(f"{e} (arguments {w.history[-1:]})", damage=detail[-3:], spec=w.proj.spec, behaviours=w.proj.behave, history=w.history,
                      stdout=o.stdout[-2000:] if o else "", stderr=o.stderr[-1500:] if o else "")
    ctx.sample({"case": i, "damage": detail, "history": w.history})
    ctx.drop(d)


def history(ctx, rng, w, detail):
    proj = w.proj
    w.all_ok(["-s", "-a", "*"], "the first run")
    for c in proj.cases:
        proj.values[c.name] = rt.canon(rt.make(proj.behave[c.key]["ret"]))
    golden = proj.snapshots()
    w.all_ok(rng.choice([["*"], ["-p2", "*"]]), "nothing is damaged")
    w.same(golden, "nothing is damaged")
    outs = {c.name: golden[c.name + ".md"].decode() for c in proj.cases}
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.3:
            state(ctx, rng, w, golden, detail)
            continue
        damage = harm(ctx, rng, proj, golden)
        detail.append(damage)
        before = proj.snapshots()
        ctx.nontrivial([proj.spec, sorted(map(repr, before.items()))])
        args = list(rng.choice([[], [], ["-v"], ["-L"], ["-p2"], ["-s"], ["-a"], ["-u"], ["-s", "-a"], ["-r"]])) + ["*"]
        o = w.run(args)
        res = w.results()
        if set(res) != set(proj.by):
            raise Broken(f"recorded are {sorted(res)} of {sorted(proj.by)}")
        if (o.rc == 0) != (set(res.values()) == {"OK"}):
            raise Broken(f"the exit status is {o.rc} for {res}")
        ran = [proj.bykey[k].name for k in o.started]
        if len(set(ran)) != len(ran):
            raise Broken(f"executed {ran}")
        if "-s" not in args and (w.hits or any(e["ev"] == "call" for e in o.events)):
            raise Broken(f"real calls were made: {w.hits} {[e for e in o.events if e['ev'] == 'call']}")
        after = proj.snapshots()
        for c in proj.cases:
            n = c.name
            ctx.count("cases_judged")
            own = {k: v for k, v in before.items() if of_case(proj, k) == n}
            now = {k: v for k, v in after.items() if of_case(proj, k) == n}
            got = res[n]
            # accepting moves it
            out = S.read(os.path.join(proj.out, n + ".md"))
            out = proj.snap_text(n) if out is None else out
            dm = damage.get(n)
            if dm is None:
                if got != "OK":
                    raise Broken(f"{n} is {got}, but its snapshot is not damaged")
                if out != outs[n]:
                    raise Broken(f"the output of {n} changed to {out!r}, but its snapshot is not damaged")
                ctx.count("undamaged_cases")
            elif not dm["json"]:
                md = before.get(n + ".md")
                m = S.Model(None if md is None else lines(md)).run(program(outs[n]))
                want = m.result() if md is not None else "DIFF"
                accepted = (want == "DIFF" and "-a" in args) or (want == "OK" and "-u" in args)
                ctx.count("damaged_texts_" + want)
                if got != ("OK" if accepted else want):
                    raise Broken(f"{n} is {got} instead of {want} against the damaged snapshot {md!r:.300}")
                if out != outs[n]:
                    raise Broken(f"the output of {n} changed to {out!r} with the damaged snapshot {md!r:.300}")
                if accepted and undated(now) != {k: v for k, v in undated(golden).items() if of_case(proj, k) == n}:
                    raise Broken(f"{n} was accepted, but its snapshot is {now}")
                if accepted:
                    own = now
            else:
                ctx.count("damaged_json_" + got)
                if got == "OK" and not dm["md"] and "-a" not in args and out != outs[n]:
                    raise Broken(f"{n} is OK with the output {out!r} instead of {outs[n]!r}")
                if got == "FAIL":
                    ctx.count("damage_refused")
                if got == "OK" and ("-a" in args or "-u" in args):
                    own = now
            if now != own:
                raise Broken(f"the snapshot of {n}, that is {got} and not accepted, changed: {diff_trees(own, now)[:4]}")
        if rng.random() < 0.5:
            w.restore(golden)
            w.all_ok(["*"], "the snapshots were restored")
            ctx.count("restored")
        else:
            w.all_ok(["-S", "-a", "-u", "*"], "-S -a -u")
            ctx.count("recaptured")
            w.same(golden, "-S -a -u")
            golden = proj.snapshots()
            w.all_ok(["*"], "after -S -a -u")
        w.same(golden, "after the repair")


def some(ctx, rng, w, x, y, how):
    """a run of some cases keeps the records of the others, as far as they are not damaged"""
    proj = w.proj
    intact = {n.split("\t")[0] for n in set(lines(y).split("\n")) & set(lines(x).split("\n")) if n.count("\t") == 2}
    sel = [c.name for c in rng.sample(proj.cases, rng.randint(1, len(proj.cases) - 1))]
    chosen = P.choose(proj, sel, False, stored=set(proj.by))
    o = w.run(sel + rng.choice([[], ["-p2"]]))
    res = w.results(how == "twice")
    missing = sorted(n for n in set(chosen) | intact if res.get(n) != "OK")
    ctx.count("intact_records_checked", len(intact - set(chosen)))
    if missing or o.rc != 0:
        raise Broken(f"after the run of {sel} with the damaged records {y!r} the records are {proj.records()}, which lack {missing}")


def state(ctx, rng, w, golden, detail):
    """damages the files that a run leaves in .out"""
    proj = w.proj
    kind = rng.choice(["cases", "metrics", "bin", "out"])
    ctx.count("state_damaged")
    ctx.distinct("damage_kinds", kind)
    if kind in ("cases", "metrics"):
        p = os.path.join(proj.out, "cases.txt" if kind == "cases" else "metrics.json")
        with open(p, "rb") as f:
            x = f.read()
        how, y = ("gone", None) if rng.random() < 0.15 else harm_bytes(rng, x)
        detail.append([kind, how])
        if y is None:
            os.unlink(p)
        else:
            with open(p, "wb") as f:
                f.write(y)
        if rng.random() < 0.5:
            o = w.run(["-w", "*"])
            if o.started:
                raise Broken(f"a review executed {o.started}")
            if kind == "metrics" and (o.rc != 0 or set(w.results()) != set(proj.by)):
                raise Broken(f"the review with damaged metrics ends with {o.rc}, the records are {w.results()}")
            ctx.count("damaged_reviews")
        if kind == "cases" and y is not None and len(proj.cases) > 1 and rng.random() < 0.6:
            some(ctx, rng, w, x, y, how)
        if rng.random() < 0.5:
            o = w.run(["-c", "*"])
            # what was there twice stays there
            res = w.results(how == "twice")
            if o.rc != 0 or set(res) != set(proj.by) or set(res.values()) != {"OK"}:
                raise Broken(f"-c with damaged {kind} ends with {o.rc}, the records are {res}")
        w.all_ok(["*"], f"{kind} was damaged")
    elif kind == "bin":
        c = rng.choice(proj.cases)
        p = os.path.join(proj.out, c.name + ".bin")
        with open(p, "rb") as f:
            x = f.read()
        # a damaged pickle may do anything; these cannot be loaded for sure
        y = rng.choice([b"", x[:rng.randrange(len(x))], b"garbage\n", b"\x80\x05"])
        with open(p, "wb") as f:
            f.write(y)
        detail.append([kind, c.name])
        users = [x for x in proj.cases if c.name in x.deps]
        alone = [x for x in users if set(x.deps) <= {c.name}]
        if users:
            x = rng.choice(alone or users)
            sel = [x.name]
            chosen = P.choose(proj, sel, False, stored=set(proj.by))
            o = w.run(sel)
            res = w.results()
            want = {n: "FAIL" if c.name in proj.by[n].deps and c.name not in chosen else "OK" for n in proj.by}
            want = {n: r if n in chosen else "OK" for n, r in want.items()}
            if res != want:
                raise Broken(f"with the damaged result of {c.name}: the results are {res} instead of {want}")
            if o.rc != 255 * (x.name in want and want[x.name] != "OK"):
                raise Broken(f"the exit status is {o.rc} for {want}")
            ctx.count("damaged_dependencies")
            w.same(golden, "after the failure")
            if rng.random() < 0.5:
                o = w.run(["-r"] + sel)
                if o.rc != 0:
                    raise Broken(f"-r does not recover from the damaged result of {c.name}: {w.results()}")
        w.all_ok(["*"], "a stored result was damaged")
    else:
        for k, v in P.tree(proj.out).items():
            if isinstance(v, bytes) and not k.endswith(".bin") and k not in ("cases.txt", "metrics.json") and rng.random() < 0.4:
                with open(os.path.join(proj.out, k), "wb") as f:
                    f.write(harm_bytes(rng, v)[1])
        detail.append([kind])
        if rng.random() < 0.6:
            o = w.run(["-w"] + rng.choice([["-v"], ["-L"], ["-v", "-L"], []]) + ["*"])
            if o.rc != 0 or set(w.results()) != set(proj.by):
                raise Broken(f"the review of damaged output files ends with {o.rc}, the records are {w.results()}")
            ctx.count("damaged_reviews")
        w.all_ok(["*"], "the output files were damaged")
    w.same(golden, "after the damage of " + kind)
