"""A parallel run with failing jobs ends and accounts for every case."""
from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 60, "seconds": 40}, "thorough": {"cases": 4000, "seconds": 900}}
ASPECTS = ("alive", "executed", "once", "records", "results", "exit", "summary", "snapshots")

SETUP = '''
import json, os
from vf import rt


def process_setup_teardown():
    rt.mark("setup")
    b = rt.behave("process")
    n = b.get("setup_fails_for")
    if b.get("setup") == "raise":
        raise rt.error("the setup fails", str(b))
    if b.get("setup") == "hopeless":
        raise rt.Hopeless(1, 2)
    yield
    rt.mark("teardown")
    if b.get("teardown") == "raise":
        raise rt.error("the teardown fails", str(b))
    if b.get("teardown") == "hopeless":
        raise rt.Hopeless(1, 2)
'''


def prepare(ctx):
    if ctx.shard != 0:
        return
    d = ctx.newdir()
    try:
        spec = {"units": [{"kind": "func", "fn": f"f{n}", "name": f"test/a{n}", "deps": []} for n in range(2)],
                "order": ["test/a0", "test/a1"]}
        proj = P.Project(d, spec)
        proj.behave = {"f0": {"lines": ["one"], "end": "die"}, "f1": {"lines": ["two"]}}
        o = proj.invoke(["-p2"], quiesce=3, wall=60)
        if o.hung:
            ctx.violation("a run whose worker process died does not end", key="worker-death")
    finally:
        ctx.drop(d)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        setup = rng.random() < 0.4
        proj = P.Project(d, G.spec(rng, n=rng.randint(2, 8), dep=rng.choice([0.2, 0.6]), res=rng.choice([0, 0.4])),
                         extra={"test/__booktest__.py": SETUP} if setup else None)
        history = []
        for step in range(rng.choice([1, 2, 3])):
            G.change(rng, proj, step, p=0.6, fail=rng.choice([0.3, 0.6, 1]), files=0.1)
            for c in proj.cases:
                if rng.random() < 0.3:
                    proj.behave[c.key]["post"] = [rng.choice([0, 0.003, 0.02])]
            proj.behave.pop("process", None)
            args = [rng.choice(["-p1", "-p2", "-p3", "-p6"])] + rng.choice([[], ["-a"], ["-c"], ["-u"]])
            args += rng.choice([["*"], G.selection(rng, proj)])
            broken = setup and rng.random() < 0.4
            if broken:
                if not broken_setup(ctx, rng, proj, args, history):
                    return
                # the results of such a run are not modelled
                return
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, history=history, quiesce=8,
                                    perturb=rng.random() if rng.random() < 0.4 else None)
            for n in e.run:
                kind = proj.behave[proj.by[n].key].get("end", "ok") if n in e.bodies else "missing dependency"
                ctx.count("ended_" + kind.replace(" ", "_"))
            ctx.nontrivial([proj.spec, args, proj.behave])
            if not go:
                return
        ctx.sample({"case": i, "spec": proj.spec, "history": history})
    finally:
        ctx.drop(d)


def broken_setup(ctx, rng, proj, args, history):
    """the setup or the teardown of the workers fails: the run ends, and every case has one record"""
    where = rng.choice(["setup", "teardown"])
    proj.behave["process"] = {where: rng.choice(["raise", "raise", "raise", "hopeless"]), "n": rng.randrange(100)}
    flags, sel = P.split_args(args)
    pre = proj.records()
    chosen = P.choose(proj, sel, "-r" in flags)
    todo = [n for n in chosen if not ("-c" in flags and dict(pre).get(n) == "OK")]
    before = proj.snapshots()
    o = proj.invoke(args, quiesce=8)
    history.append([args, proj.behave["process"]])
    ctx.count("broken_" + where)
    recs = proj.records()
    ran = {proj.bykey[k].name for k in o.started}
    why = None
    if o.hung:
        why = "the run does not end"
    elif o.rc < 0 or (o.rc != 255 and any(r != "OK" for n, r in recs if n in todo)) or (o.rc == 0 and where == "setup" and todo):
        why = f"the exit status is {o.rc}, the records are {recs}"
    elif sorted(n for n, _ in recs) != sorted([n for n, _ in pre if n not in todo] + todo):
        why = f"the records are {recs}, to run {todo}"
    elif where == "setup" and (ran or any(r != "FAIL" for n, r in recs if n in todo)):
        why = f"the setup failed, but the records are {recs} and {ran} ran"
    elif len(o.started) != len(ran):
        why = f"executed {o.started}"
    elif where == "setup" and proj.snapshots() != before and P.same_books(proj, before, proj.snapshots(), todo):
        why = "the snapshots changed"
    if why:
        ctx.violation(f"{why} ({where} of the workers fails, arguments {args})", spec=proj.spec, behaviours=proj.behave,
                      history=history, stdout=o.stdout[-2000:], stderr=o.stderr[-3000:])
        return False
    return True
