"""HTTP capture stores what was missing, and no request secrets."""
from vf import web
from vf import projgen as G

PLAN = {"quick": {"cases": 50, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
BASE = []


def prepare(ctx):
    BASE.append(web.serve())


def case(ctx, rng, i):
    w = web.Web(ctx, rng, BASE[0], 0.4)
    try:
        for step in range(rng.randint(3, 7)):
            for c in w.proj.cases:
                if c.key not in w.proj.behave or rng.random() < 0.5:
                    w.behave(rng, c, 0.2)
            args = list(rng.choice([[], ["-a"], ["-s"], ["-S"], ["-s", "-a"], ["-s", "-a"], ["-s", "-a"], ["-S", "-a"], ["-u"],
                                    ["-s", "-u", "-a"], ["-s", "-S", "-a"]]))
            if rng.random() < 0.2:
                args.append(rng.choice(["-p1", "-p2"]))
            args += rng.choice([["*"], ["*"], G.selection(rng, w.proj)])
            if rng.random() < 0.5:
                w.version += 1
            if w.run(args) is None:
                return
            if rng.random() < 0.1:
                w.legacy(rng)
        ctx.sample({"case": i, "decorators": w.decos, "history": w.history,
                    "requests": {c.key: [web.op_text(w.proj.behave[c.key], [k]) for k, o in enumerate(w.proj.behave[c.key]["http"])
                                         if "ops" not in o] for c in w.proj.cases}})
    finally:
        w.drop()
