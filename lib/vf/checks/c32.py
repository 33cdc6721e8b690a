"""Projects written with functions and with coroutines behave the same."""
import copy
import json
import os
import re

from vf import proj as P
from vf import projgen as G
from vf import rt, web
from vf.checks.c15 import blocks, outputs
from vf.core import diff_trees

PLAN = {"quick": {"cases": 45, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
BASE = []
HEAD = web.HEAD + """
def vf_fun(*args, **kwargs):
    return rt.real_call("x_book.vf_fun", args, kwargs)


def vf_fun2(*args, **kwargs):
    return rt.real_call("x_book.vf_fun2", args, kwargs)


def vf_fake(*args, **kwargs):
    return ["fake", list(args), kwargs]
"""
SETUP = '''
from vf import rt


def process_setup_teardown():
    rt.log(ev="process setup")
    yield
    rt.log(ev="process teardown")
'''
VARS = ["VF_A", "VF_B", "VF_C", "VF_M"]


def prepare(ctx):
    BASE.append(web.serve())
    if ctx.shard < 2:
        slow(ctx, [["-a"], ["-p2", "-a"]][ctx.shard])


def slow(ctx, args):
    """a test may take its time, whichever way it is written"""
    d = ctx.newdir()
    try:
        units = [{"kind": "func", "fn": f"f{n}", "name": f"test/{n}", "async": n == 1, "deps": []} for n in range(2)]
        proj = P.Project(d, {"units": units, "order": ["test/0", "test/1"]})
        proj.behave = {"f0": {"lines": ["plain"], "pre": [0.1 if len(args) == 1 else 11]}, "f1": {"lines": ["coroutine"], "mid": [11]}}
        o = proj.invoke(args)
        ctx.count("slow_runs")
        if o.rc != 0 or sorted(proj.records()) != [("test/0", "OK"), ("test/1", "OK")]:
            ctx.violation(f"tests of 11 seconds end with {o.rc}, {proj.records()} (arguments {args})", stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
    finally:
        ctx.drop(d)


def decorators(rng):
    rv = []
    if rng.random() < 0.3:
        rv.append(f'bt.snapshot_env({", ".join(repr(x) for x in rng.sample(VARS, rng.randint(1, 2)))})')
    if rng.random() < 0.2:
        rv.append(rng.choice(['bt.mock_env({"VF_M": "1", "VF_A": None})', 'bt.mock_missing_env({"VF_M": "2"})', 'bt.mock_env({"VF_C": ""})']))
    if rng.random() < 0.2:
        rv.append(rng.choice(["bt.snapshot_functions(vf_fun)", "bt.snapshot_functions(vf_fun, vf_fun2)", "bt.mock_functions({vf_fun2: vf_fake})"]))
    if rng.random() < 0.2:
        rv.append(web.code(*rng.choice([("requests", web.config(rng)), ("httpx", web.config(rng))])))
    if rng.random() < 0.2:
        rv.append(f"bt.setup_teardown(rt.bracket({rng.choice(['s1', 's2', 's3'])!r}))")
    if rng.random() < 0.1:
        rv.append("bt.combine_decorators(bt.mock_env({'VF_B': 'c'}), bt.setup_teardown(rt.bracket('s4')))")
    rng.shuffle(rv)
    return rv


def each(spec):
    for u in spec["units"]:
        yield from (u["methods"] if u["kind"] == "class" else [u])


def events(o, par):
    rv = []
    for e in o.events:
        e = {k: v for k, v in e.items() if k not in ("pid", "t")}
        if "text" in e:
            del e["text"]
        rv.append(json.dumps(e, sort_keys=True))
    return sorted(rv) if par else rv


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        spec = G.spec(rng, n=rng.randint(1, 7), asy=0, res=0.1, dep=rng.choice([0.2, 0.5]))
        spec["head"] = HEAD
        for x in each(spec):
            x["deco"], x["deco_in"] = decorators(rng), decorators(rng) if rng.random() < 0.3 else []
        twin = copy.deepcopy(spec)
        changed = 0
        share = rng.choice([0.3, 0.6, 1])
        for x in each(twin):
            x["async"] = rng.random() < share
            changed += x["async"]
        if not changed:
            rng.choice(list(each(twin)))["async"] = True
            changed = 1
        if rng.random() < 0.3:
            # both mixed, the other way round
            for x, y in zip(each(spec), each(twin)):
                x["async"] = not y["async"]
        extra = {"test/__booktest__.py": SETUP} if rng.random() < 0.3 else {}
        projs = []
        for name, s in (("plain", spec), ("corou", twin)):
            os.makedirs(os.path.join(d, name))
            projs.append(P.Project(os.path.join(d, name), s, extra))
        a, b = projs
        asy = {f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"]
               for u in twin["units"] for x in (u["methods"] if u["kind"] == "class" else [u]) if x.get("async")}
        few = web.paths(rng)
        history = []
        unordered = False
        version = rng.randrange(50)
        for step in range(rng.randint(2, 4)):
            # what a test leaves in its process, later tests of the same worker see
            par = rng.random() < 0.25
            unordered |= par
            G.change(rng, a, step, p=0.5, fail=rng.choice([0, 0.15, 0.4]), files=0.3)
            for c in a.cases:
                x = a.behave[c.key]
                x["mid"] = [rng.choice([0, 0, 0.001])] * rng.randint(0, 3)
                x["show"], x["look"] = rng.random() < 0.3, True
                x["env"] = VARS
                if rng.random() < 0.4:
                    x["calls"] = [["x_book." + rng.choice(["vf_fun", "vf_fun2"]), [rng.randrange(3)], {}, rng.random() < 0.2] for _ in range(rng.randint(1, 3))]
                    x["print_results"] = True
                if rng.random() < 0.3:
                    x["http"] = [web.operation(rng, few, False) for _ in range(rng.randint(1, 3))]
                x.pop("setenv", None)
                if rng.random() < 0.15 and not par:
                    x["setenv"] = {rng.choice(VARS): rng.choice([None, "", "set"])}
                if rng.random() < 0.2:
                    x["noise"] = [[rng.choice(["err", "log", "thread"]), "n\n"]]
            for s in ("s1", "s2", "s3", "s4"):
                a.behave[s] = {rng.choice(["setup", "teardown"]): True} if rng.random() < 0.06 else {}
            a.behave["functions"] = {"version": rng.randrange(2)}
            if rng.random() < 0.1:
                a.behave["functions"]["raise"] = "x_book.vf_fun"
            b.behave = a.behave
            args = list(rng.choice([[], ["-a"], ["-a"], ["-u"], ["-c"], ["-c", "-a"], ["-r"], ["-L"], ["-f"], ["-v"], ["-v", "-L"]]))
            args += rng.choice([["-s"], ["-S"], []])
            if par:
                args = [x for x in args if x != "-f"]
            args += [rng.choice(["-p1", "-p2", "-p4"])] if par else []
            args += G.selection(rng, a, p_all=0.6)
            env = {k: rng.choice(["1", "2", "", "ä b"]) for k in VARS if rng.random() < 0.6}
            env["VF_BASE"] = BASE[0]
            version += rng.random() < 0.5
            web.hits(BASE[0], version, False)
            oa = a.invoke(args, env=env, quiesce=8 if par else 0)
            ha = web.hits(BASE[0], version, False)
            ob = b.invoke(args, env=env, quiesce=8 if par else 0)
            hb = web.hits(BASE[0], version, False)
            history.append(args)
            ctx.count("pairs")
            ctx.count("parallel_pairs", par)
            ctx.count("bodies_run", len(oa.started))
            ctx.count("coroutine_bodies", sum(b.bykey[k].ref in asy for k in ob.started))
            ctx.count("requests_made", len(ha))
            ctx.count("events_compared", len(oa.events))
            ctx.nontrivial([twin, a.behave, args, env])
            why = differs(a, b, oa, ob, par, unordered)
            if not why and sorted(map(str, ha)) != sorted(map(str, hb)):
                why = f"the requests that reach the server are {hb}, with functions {ha}"
            if not why and not par and ha != hb:
                why = f"the requests come in the order {hb}, with functions {ha}"
            if not why and "-v" in args:
                va, vb = blocks(oa.stdout), blocks(ob.stdout)
                ctx.count("verbose_blocks", len(va))
                if va != vb:
                    why = f"the verbose output is {[vb.get(k) for k in va if vb.get(k) != va[k]]}, with functions {[va[k] for k in va if vb.get(k) != va[k]]}"
            if not why and "-v" not in args and not par and P.summary(oa.stdout) != P.summary(ob.stdout):
                why = f"the report is {P.summary(ob.stdout)}, with functions {P.summary(oa.stdout)}"
            if why:
                ctx.violation(f"{why} (arguments {args})", spec=twin, functions=spec, behaviours=a.behave, history=history,
                              with_functions=[oa.rc, oa.stdout[-1500:], a.records()],
                              with_coroutines=[ob.rc, ob.stdout[-1500:], ob.stderr[-1500:], b.records()])
                return
        ctx.sample({"case": i, "spec": twin, "history": history, "records": b.records()})
    finally:
        ctx.drop(d)


def dateless(files):
    return {k: re.sub(rb'"date"([:,]\s*)"[^"]*"', b'"date"', v, flags=re.I) if isinstance(v, bytes) and k.endswith(".json") else v
            for k, v in files.items()}


def differs(a, b, oa, ob, par, unordered):
    if oa.hung or ob.hung:
        return f"the run does not end (functions {oa.hung}, coroutines {ob.hung})"
    if ob.rc != oa.rc:
        return f"the exit status is {ob.rc}, with functions {oa.rc}"
    ea, eb = events(oa, par), events(ob, par)
    if ea != eb:
        n = [k for k in range(max(len(ea), len(eb))) if ea[k:k + 1] != eb[k:k + 1]][0]
        return f"event {n} is {eb[n:n + 1]}, with functions {ea[n:n + 1]}"
    ra, rb = a.records(), b.records()
    if (sorted(ra) != sorted(rb)) if unordered else (ra != rb):
        return f"the records are {rb}, with functions {ra}"
    fa, fb = dateless(a.snapshots()), dateless(b.snapshots())
    if fa != fb:
        return f"the snapshots differ from those with functions: {diff_trees(fa, fb)[:5]}"
    fa, fb = dateless(outputs(a)), dateless(outputs(b))
    if fa != fb:
        return f"the result files differ from those with functions: {diff_trees(fa, fb)[:5]}"
    return None
