"""HTTP replay is faithful and never touches the network."""
from vf import web
from vf import projgen as G

PLAN = {"quick": {"cases": 50, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
BASE = []


def prepare(ctx):
    BASE.append(web.serve())


def case(ctx, rng, i):
    w = web.Web(ctx, rng, BASE[0], 0.8)
    try:
        for c in w.proj.cases:
            w.behave(rng, c, 0)
            if rng.random() < 0.9:
                w.proj.behave[c.key].pop("end", None)
        args = [rng.choice(["-s", "-S"]), "-a", "*"]
        for step in range(rng.randint(3, 6)):
            if w.run(args) is None:
                return
            if rng.random() < 0.7:
                w.version += 1
            if rng.random() < 0.15:
                w.legacy(rng)
            for c in w.proj.cases:
                if rng.random() < 0.3:
                    w.behave(rng, c, 0.6)
            args = list(rng.choice([[], [], [], [], ["-a"], ["-u"], ["-s", "-a"], ["-s"]]))
            if rng.random() < 0.2:
                args.append(rng.choice(["-p1", "-p2"]))
            args += rng.choice([["*"], ["*"], G.selection(rng, w.proj)])
        ctx.sample({"case": i, "decorators": w.decos, "history": w.history,
                    "requests": {c.key: [web.op_text(w.proj.behave[c.key], [k]) for k, o in enumerate(w.proj.behave[c.key]["http"])
                                         if "ops" not in o] for c in w.proj.cases}})
    finally:
        w.drop()
