"""Snapshotted functions replay, mocked functions are replaced, then restored."""
import json
import os

from vf import proj as P
from vf import projgen as G
from vf import rt

PLAN = {"quick": {"cases": 100, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}

FXA = '''
from vf import rt


def get(*args, **kwargs):
    return rt.real_call("fxa.get", args, kwargs)


def put(*args, **kwargs):
    return rt.real_call("fxa.put", args, kwargs)


def get_all(*args, **kwargs):
    return rt.real_call("fxa.get_all", args, kwargs)


class Svc:
    def __init__(self, name):
        self.name = name

    def get(self, *args, **kwargs):
        return rt.real_call(self.name + ".get", args, kwargs)

    def find(self, *args, **kwargs):
        return rt.real_call(self.name + ".find", args, kwargs)


SVC = Svc("fxa.SVC")


class Kind:
    @classmethod
    def make(cls, *args, **kwargs):
        return rt.real_call("fxa.Kind.make", args, kwargs)


class Sub(Kind):
    pass


class Other(Kind):
    @classmethod
    def build(cls, *args, **kwargs):
        return rt.real_call("fxa.Other.build", args, kwargs)


def traces():
    """what the replacing of methods might leave"""
    return [sorted(vars(SVC)), sorted(vars(Sub)), sorted(vars(Other)), Sub.make.__self__.__name__, Other.make.__self__.__name__,
            type(vars(Kind)["make"]).__name__]


def fake0(*args, **kwargs):
    return ["fake0", list(args), kwargs]


def fake1(*args, **kwargs):
    return "fake1"
'''
FXB = '''
from vf import rt


def load(*args, **kwargs):
    return rt.real_call("fxb.load", args, kwargs)


class Db:
    def get(self, *args, **kwargs):
        return rt.real_call("fxb.DB.get", args, kwargs)


DB = Db()


def get(*args, **kwargs):
    return rt.real_call("fxb.get", args, kwargs)
'''
FUNCS = {"fxa.get": "get", "fxa.put": "put", "fxa.get_all": "get_all", "fxa.SVC.get": "Svc.get", "fxa.SVC.find": "Svc.find",
         "fxa.Kind.make": "Kind.make", "fxa.Other.build": "Other.build", "fxb.load": "load", "fxb.DB.get": "Db.get"}
ARGS = [1, 1.0, True, "1", None, 0, False, "", "a", "ä", [1, 2], [], [[1], 2], {}, {"a": 1}, {"a": [None, {"b": "x"}]}, -5,
        1e300, "a\nb", "get", [1], "None"]
HEAD = "from test import fxa, fxb"


def prepare(ctx):
    if ctx.shard != 0:
        return
    d = ctx.newdir()
    try:
        spec = {"units": [{"kind": "func", "fn": "f0", "name": "test/a", "deps": [],
                           "deco": ["bt.snapshot_functions(fxa.get, fxb.get)"]}], "order": ["test/a"], "head": HEAD}
        proj = P.Project(d, spec, extra={"test/fxa.py": FXA, "test/fxb.py": FXB})
        proj.behave = {"f0": {"lines": ["one"], "calls": [["fxa.get", [1], {}, False], ["fxb.get", [1], {}, False]]}}
        proj.invoke(["-s", "-a"])
        o = proj.invoke([])
        got = [e["value"] for e in o.events if e["ev"] == "got"]
        if len(got) == 2 and got[0] == got[1]:
            ctx.violation(f"fxa.get(1) and fxb.get(1) replay the same result {got}", key="same-qualname")
    finally:
        ctx.drop(d)


def real_value(name, args, kwargs, state):
    k = f"{name} {json.dumps([list(args), kwargs])}"
    v = state.get("version", 0)
    return [v, f"{k} {v}", {"v": v, "k": [k]}, None, [k, {"n": v}]][(len(k) + v) % 5]


def stack(rng):
    rv = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        fs = rng.sample(sorted(FUNCS), rng.randint(1, 3))
        if rng.random() < 0.7:
            rv.append(["snapshot", fs])
        else:
            rv.append(["mock", {f: rng.choice(["fake0", "fake1"]) for f in fs}])
    return rv


def code(d):
    if d[0] == "snapshot":
        return f"bt.snapshot_functions({', '.join(d[1])})"
    return "bt.mock_functions({" + ", ".join(f"{f}: fxa.{m}" for f, m in d[1].items()) + "})"


def each(units):
    for u in units:
        for x in u["methods"] if u["kind"] == "class" else [u]:
            yield f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"], x


def calls(rng, few):
    rv = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        if rv and rng.random() < 0.3:
            x = list(rng.choice(rv))
            x[3] = rng.random() < 0.3
            rv.append(x)
            continue
        args = [rng.choice(few if rng.random() < 0.6 else ARGS) for _ in range(rng.choice([0, 1, 1, 2]))]
        kwargs = {k: rng.choice(few) for k in ("a", "key") if rng.random() < 0.25}
        rv.append([rng.choice(sorted(FUNCS)), args, kwargs, rng.random() < 0.3])
    return rv


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        spec = G.spec(rng, n=rng.randint(1, 5), dep=rng.choice([0, 0.3]))
        spec["head"] = HEAD
        stacks = {}
        for ref, x in each(spec["units"]):
            stacks[ref] = [stack(rng), stack(rng) if rng.random() < 0.2 else []]
            x["deco"], x["deco_in"] = [code(y) for y in stacks[ref][0]], [code(y) for y in stacks[ref][1]]
        proj = P.Project(d, spec, extra={"test/fxa.py": FXA, "test/fxb.py": FXB})
        few = rng.sample(ARGS, 3)
        held, history = {}, []
        for step in range(rng.randint(3, 7)):
            for c in proj.cases:
                if c.key not in proj.behave or rng.random() < 0.3:
                    b = {"lines": [f"{c.key} version {rng.randrange(2)}"], "ret": ["int", step], "calls": calls(rng, few),
                         "print_results": rng.random() < 0.5}
                    if c.key in proj.behave and rng.random() < 0.6:
                        # the same calls and some more, or in another order
                        old = proj.behave[c.key]["calls"]
                        b["calls"] = old + b["calls"][:2]
                        if rng.random() < 0.3:
                            rng.shuffle(b["calls"])
                    if rng.random() < 0.15:
                        b["end"] = rng.choice(P.FAILS)
                    proj.behave[c.key] = b
            if step == 0 or rng.random() < 0.4:
                proj.behave["functions"] = {"version": rng.randrange(10)}
                if rng.random() < 0.15:
                    proj.behave["functions"]["raise"] = rng.choice(sorted(FUNCS))
            if held and rng.random() < 0.2:
                tamper(ctx, rng, proj, held)
            args = list(rng.choice([[], [], ["-a"], ["-s"], ["-S"], ["-s", "-a"], ["-s", "-a"], ["-S", "-a"], ["-u"], ["-s", "-u", "-a"],
                                    ["-s", "-S", "-a"]]))
            if rng.random() < 0.2:
                args.append(rng.choice(["-p1", "-p2"]))
            args += rng.choice([[], ["*"]]) or G.selection(rng, proj, p_all=0.5)
            history.append([args, dict(proj.behave["functions"])])
            if not one(ctx, proj, stacks, held, args, history):
                return
        ctx.sample({"case": i, "decorators": stacks, "history": history,
                    "calls": {c.key: proj.behave[c.key]["calls"] for c in proj.cases}})
    finally:
        ctx.drop(d)


def stored(proj, n, where=None):
    d = os.path.join(where or proj.books, n, ".functions")
    rv = {}
    if os.path.isdir(d):
        for x in sorted(os.listdir(d)):
            j = json.loads(P.slurp(os.path.join(d, x)))
            rv[key(j["call"]["func"], j["call"]["args"], j["call"]["kwargs"])] = (j["result"], x)
    return rv


def key(qual, args, kwargs):
    return json.dumps([qual, list(args), kwargs])


def tamper(ctx, rng, proj, held):
    """the user removes a stored call"""
    n = rng.choice(sorted(held))
    have = stored(proj, n)
    if have:
        k = rng.choice(sorted(have))
        os.remove(os.path.join(proj.books, n, ".functions", have[k][1]))
        del held[n][1][k]
        ctx.count("snapshots_removed")


class Test:
    pass


def model(c, b, stacks, held, flags, missing_dep, state):
    r = Test()
    outer, inner = stacks[c.ref]
    capture = "-s" in flags or "-S" in flags
    known = {} if "-S" in flags else dict(held[c.name][1]) if c.name in held else {}
    r.ran, r.events, r.missing, r.captured = False, [], None, None
    r.replayed = r.called = r.faked = 0
    all_ = outer + inner
    # with a missing value the decorators inside depends_on are not reached
    entered = outer if missing_dep else all_
    owner = {}
    for n, x in enumerate(entered):
        for f in x[1]:
            owner[f] = n
    lists = {n: {} for n, x in enumerate(entered) if x[0] == "snapshot"}
    r.lines = []
    ok = not missing_dep
    if ok:
        r.ran = True
        r.lines = list(b["lines"])
        for f, args, kwargs, spoil in b["calls"]:
            o = owner.get(f)
            if o is not None and entered[o][0] == "mock":
                v = ["fake0", args, kwargs] if entered[o][1][f] == "fake0" else "fake1"
                r.faked += 1
            else:
                k = key(FUNCS[f], args, kwargs)
                if o is not None and k in known:
                    v = known[k]
                    lists[o].setdefault(k, v)
                    r.replayed += 1
                elif o is not None and not capture:
                    r.missing = k
                    ok = False
                    break
                else:
                    r.events.append(("call", f, args, kwargs))
                    r.called += o is not None
                    if state.get("raise") == f:
                        ok = False
                        break
                    v = real_value(f, args, kwargs, state)
                    if o is not None:
                        lists[o][k] = v
            r.events.append(("got", f, v))
            if b["print_results"]:
                r.lines.append(f"{f} gives {json.dumps(v)}")
        if b.get("end", "ok") in P.FAILS:
            ok = False
    for n in reversed(range(len(entered))):
        if n in lists:
            r.lines += ["", "# function call snapshots:", ""] + [" * " + k for k in lists[n]]
            r.captured = dict(r.captured or {}, **lists[n])
    r.ok = ok
    return r


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def one(ctx, proj, stacks, held, args, history):
    flags, sel = P.split_args(args)
    par = G.parallel(args)
    state = proj.behave["functions"]

    def call():
        import booktest.cli
        import sys
        sys.path.insert(0, os.getcwd())
        real = {f: rt.target(f) for f in FUNCS}
        traces = rt.target("fxa.traces")()
        rv = 1
        try:
            rv = booktest.cli.main(list(args))
        except SystemExit as e:
            rv = e.code
        rt.log(ev="after", changed=[f for f in FUNCS if rt.target(f) != real[f]] + [x for x, y in zip(rt.target("fxa.traces")(), traces) if x != y])
        return rv

    o = proj.invoke(args, call=call, quiesce=8)
    ctx.count("runs")
    ctx.nontrivial([proj.spec, proj.behave, args, sorted(held.items())])
    got = {}
    pids = {}
    for e in o.events:
        if e["ev"] == "start":
            pids[e["pid"]] = proj.bykey[e["case"]].name
            got[pids[e["pid"]]] = []
        elif e["ev"] == "call":
            got[pids[e["pid"]]].append(("call", e["f"], e["args"], e["kwargs"]))
        elif e["ev"] == "got":
            got[pids[e["pid"]]].append(("got", e["f"], e["value"]))
    results = dict(proj.records())
    values = dict(proj.values)
    chosen = P.choose(proj, sel, "-r" in flags)
    want, after = {}, dict(held)
    why = None
    if o.hung or o.rc not in (0, 255):
        why = f"the run ended with status {o.rc}: {o.stderr[-400:]}"
    for n in (G.topological(proj, chosen) if par else chosen) if not why else ():
        c = proj.by[n]
        b = proj.behave[c.key]
        r = model(c, b, stacks, held, flags, any(x not in values for x in c.deps), state)
        if r.ran != (n in got):
            why = f"{n} " + ("did not run" if r.ran else "ran")
            break
        if r.ran and got[n] != r.events:
            k = [x == y for x, y in zip(got[n] + [None], r.events + [None])].index(False)
            why = f"{n} with {stacks[c.ref]}: call {k} is {(got[n] + [None])[k]} instead of {(r.events + [None])[k]}" \
                  f" (missing {r.missing})"
            break
        if not r.ok:
            raw = {"FAIL"}
        else:
            values[n] = rt.canon(rt.make(b["ret"]))
            if n not in held:
                raw = {"DIFF"}
            elif held[n][0] == r.lines:
                raw = {"OK"}
            elif subsequence(r.lines, held[n][0]):
                raw = {"OK", "DIFF"}
            else:
                raw = {"DIFF"}
        ok = {"OK" if x == "DIFF" and "-a" in flags else x for x in raw}
        if results.get(n) not in ok:
            why = f"{n} is {results.get(n)} instead of {ok}, missing {r.missing}"
            break
        now = (P.slurp(os.path.join(proj.books, n + ".md")) if n in held or results[n] == "OK" else None)
        accept = (raw == {"DIFF"} and "-a" in flags) or (raw == {"OK"} and "-u" in flags)
        if len(raw) == 2 and ("-a" in flags or "-u" in flags):
            ctx.count("undecided_acceptance")
            # the history ends here: which of the two it was does not show
            return False
        if accept:
            after[n] = (r.lines, r.captured)
            ctx.count("accepted")
        if n in after:
            have = {k: v[0] for k, v in stored(proj, n).items()}
            if have != (after[n][1] or {}):
                why = f"{n}: the stored calls are {have} instead of {after[n][1]}"
                break
        want[n] = raw
        ctx.count("replayed_calls", r.replayed)
        ctx.count("captured_calls", r.called)
        ctx.count("mocked_calls", r.faked)
        if r.missing:
            ctx.count("missing_calls")
    if not why:
        final = [e["changed"] for e in o.events if e["ev"] == "after"]
        if final != [[]]:
            why = f"after the run these functions are not the original ones: {final}"
    if why:
        ctx.violation(f"{why} (arguments {args})", decorators=stacks, behaviours=proj.behave, history=history, held=held,
                      stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
        return False
    held.clear()
    held.update({n: (v[0], dict(v[1] or {})) for n, v in after.items()})
    proj.values = values
    return True
