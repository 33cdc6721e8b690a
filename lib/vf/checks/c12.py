"""A dependent gets the value its dependency last returned."""
import json
import random

from vf import proj as P
from vf import projgen as G
from vf import rt

PLAN = {"quick": {"cases": 100, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = ("alive", "values", "executed")


def spec(rng):
    return G.spec(rng, n=rng.randint(3, 8), dep=rng.choice([0.5, 0.8]), res=0.2, maxdeps=3)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, spec(rng))
        history = []
        for step in range(rng.randint(2, 5)):
            if rng.random() < 0.35:
                if not same_process(ctx, rng, proj, history, step):
                    return
                continue
            change(rng, proj, step)
            args = list(rng.choice([[], ["-a"], ["-r"], ["-c"], ["-u"]]))
            if rng.random() < 0.35:
                args.append(rng.choice(["-p1", "-p2", "-p3"]))
            args += G.selection(rng, proj, p_all=0.3)
            real = not ctx.quick and rng.random() < 0.05
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history, real=real)
            tally(ctx, proj, e, o.par)
            ctx.nontrivial([proj.spec, args, e.received])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history, "last_values": proj.values})
    finally:
        ctx.drop(d)


def change(rng, proj, step):
    G.change(rng, proj, step, p=0.4, fail=rng.choice([0, 0.25]), files=0)
    for c in proj.cases:
        if rng.random() < 0.6:
            proj.behave[c.key]["ret"] = G.value(rng, f"{c.key}@{step}")


def tally(ctx, proj, e, par):
    for n, got in e.received.items():
        for (k, x), v in zip(proj.by[n].args, got):
            if k == "val":
                ctx.count("resource_values")
            elif x in e.bodies:
                ctx.count("values_from_another_worker_or_test" if par else "values_of_this_run")
            else:
                ctx.count("values_of_earlier_runs")
            if v == rt.canon(None):
                ctx.count("none_values")
    for n in e.run:
        if n not in e.bodies:
            ctx.count("dependents_without_value")


CACHES = ["default", "dict", "lru0", "lru1", "lru2", "none"]


def same_process(ctx, rng, proj, history, step):
    """several runs in one process share the in-memory cache"""
    kind = rng.choice(CACHES)
    steps = []
    for k in range(rng.randint(1, 3)):
        change(rng, proj, f"{step}.{k}")
        steps.append((json.loads(json.dumps(proj.behave)),
                      rng.choice([[], ["-a"], ["-r"]]) + (G.selection(rng, proj, p_all=0.3) or ["*"])))

    def call():
        import importlib
        import sys
        from booktest import cache as bt
        sys.path.insert(0, ".")
        tests = importlib.import_module("test.x_book").all_tests
        cache = {"default": None, "dict": {}, "lru0": bt.LruCache(0), "lru1": bt.LruCache(1), "lru2": bt.LruCache(2),
                 "none": bt.NoCache()}[kind]
        for n, (behave, args) in enumerate(steps):
            with open(proj.behave_file, "w") as f:
                json.dump(behave, f)
            rt.mark("run", n=n)
            tests.exec("books", args, cache)
        return 0

    o = proj.invoke(["(runs in one process)"], call=call)
    history.append([kind, steps])
    ctx.count("runs_in_one_process", len(steps))
    ctx.count("cache_" + kind)
    at = -1
    got = [{} for _ in steps]
    for ev in o.events:
        if ev["ev"] == "run":
            at = ev["n"]
        elif ev["ev"] == "start":
            got[at].setdefault(proj.bykey[ev["case"]].name, []).append(ev["deps"])
    if o.rc != 0:
        ctx.violation(f"runs with the cache {kind} ended with status {o.rc}: {o.stderr[-500:]}", history=history,
                      spec=proj.spec)
        return False
    for n, (behave, args) in enumerate(steps):
        proj.behave = behave
        e = P.expect_run_on(proj, args, (), None, {}, [])
        want = {x: [v] for x, v in e.received.items()}
        if got[n] != want:
            bad = {x: (got[n].get(x), want.get(x)) for x in set(want) | set(got[n]) if got[n].get(x) != want.get(x)}
            ctx.violation(f"with the cache {kind}, run {n} {args}: dependents got (instead of) {bad}", history=history,
                          spec=proj.spec, stdout=o.stdout[-2000:])
            return False
        tally(ctx, proj, e, False)
        proj.values = e.values
    # records of these runs are not modelled: continue from the files
    return True
