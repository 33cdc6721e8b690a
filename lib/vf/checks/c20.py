"""Environment snapshots and mocks apply in the test and are undone after it."""
import json
import os

from vf import proj as P
from vf import projgen as G
from vf import rt

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 6000, "seconds": 900}}
NAMES = ["VF_A", "VF_B", "VF_AB", "VF_LONG_NAME", "VF_ä", "vf_lower"]
VALUES = ["", "1", "None", "a b", " x ", "k=v=w", "ä€😀", '{"q": "\'"}', "null", "x" * 300, "0", "* VF_A=1", "\\n", "%s$HOME"]


def names(rng):
    return rng.sample(NAMES, rng.randint(1, 3))


def stack(rng):
    rv = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["snapshot", "snapshot", "mock", "missing"])
        if k == "snapshot":
            rv.append([k, names(rng)])
        else:
            rv.append([k, {n: rng.choice([None] + VALUES) for n in names(rng)}])
    return rv


def code(d):
    if d[0] == "snapshot":
        return f"bt.snapshot_env({', '.join(map(repr, d[1]))})"
    return f"bt.{'mock_env' if d[0] == 'mock' else 'mock_missing_env'}({d[1]!r})"


def each(units):
    for u in units:
        for x in u["methods"] if u["kind"] == "class" else [u]:
            yield f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"], x


def write(proj, stacks):
    for ref, x in each(proj.spec["units"]):
        x["deco"] = [code(d) for d in stacks[ref][0]]
        x["deco_in"] = [code(d) for d in stacks[ref][1]]
    with open(os.path.join(proj.dir, "test", "x_book.py"), "w") as f:
        f.write(P.module_code(proj.spec))


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        spec = G.spec(rng, n=rng.randint(1, 5), dep=rng.choice([0, 0.3]))
        stacks = {ref: [stack(rng), stack(rng) if rng.random() < 0.3 else []] for ref, x in each(spec["units"])}
        proj = P.Project(d, spec)
        write(proj, stacks)
        held = {}           # case name -> (text, captured variables or None) of the snapshot
        base = {}
        history = []
        for step in range(rng.randint(3, 7)):
            for n in NAMES:
                if step == 0 or rng.random() < 0.35:
                    base[n] = rng.choice([None] + VALUES)
            for c in proj.cases:
                if c.key not in proj.behave or rng.random() < 0.4:
                    b = {"lines": [f"{c.key} version {rng.randrange(2)}"], "env": NAMES, "ret": ["int", step]}
                    if rng.random() < 0.2:
                        b["end"] = rng.choice(P.FAILS)
                    declared = [n for s in stacks[c.ref] for x in s for n in x[1]]
                    if declared and rng.random() < 0.25:
                        b["setenv"] = {n: rng.choice([None] + VALUES) for n in rng.sample(declared, 1)}
                    proj.behave[c.key] = b
            if rng.random() < 0.15:
                # a variable more
                s = rng.choice(list(stacks.values()))
                for x in s[0] + s[1]:
                    if x[0] == "snapshot":
                        n = rng.choice(NAMES)
                        if n not in x[1]:
                            x[1].append(n)
                        break
                write(proj, stacks)
            if held and rng.random() < 0.2:
                tamper(ctx, rng, proj, held)
            args = list(rng.choice([[], [], ["-a"], ["-s"], ["-S"], ["-s", "-a"], ["-s", "-a"], ["-S", "-a"], ["-u"], ["-s", "-u", "-a"], ["-s", "-S", "-a"]]))
            if rng.random() < 0.2:
                args.append(rng.choice(["-p1", "-p2"]))
            args += rng.choice([[], ["*"]]) or G.selection(rng, proj, p_all=0.5)
            history.append([args, {k: v for k, v in base.items() if v is not None}])
            if not one(ctx, proj, stacks, held, base, args, history):
                return
        ctx.sample({"case": i, "decorators": stacks, "history": history})
    finally:
        ctx.drop(d)


def tamper(ctx, rng, proj, held):
    """the user removes or edits captured variables"""
    n = rng.choice(sorted(held))
    text, env = held[n]
    p = os.path.join(proj.books, n, ".env.json")
    if env is None:
        return
    if rng.random() < 0.4:
        os.remove(p)
        held[n] = (text, None)
    else:
        env = dict(env)
        k = rng.choice(sorted(env)) if env else None
        if k is None:
            return
        if rng.random() < 0.4:
            del env[k]
        else:
            env[k] = rng.choice([None] + VALUES)
        with open(p, "w") as f:
            json.dump(env, f)
        held[n] = (text, env)
    ctx.count("snapshots_edited")


class Test:
    pass


def model(c, b, stacks, held, env, flags, missing_dep):
    """what one test sees, writes and captures"""
    r = Test()
    env = dict(env)
    before = dict(env)
    outer, inner = stacks[c.ref]
    refresh, complete = "-S" in flags, "-s" in flags
    known = {} if refresh else (held.get(c.name) or (None, None))[1] or {}
    opened = []
    r.ran, ok = False, True
    r.text = ""
    r.captured = None
    r.missing = None
    r.replayed = r.fresh = 0
    for x in outer + [None] + inner:
        if x is None:
            if missing_dep:
                ok = False
                break
            continue
        old = {n: env.get(n) for n in x[1]}
        cap = {}
        if x[0] == "snapshot":
            lack = [n for n in x[1] if n not in known]
            if lack and not (refresh or complete):
                r.missing = lack
                ok = False
                break
            for n in x[1]:
                if n in known:
                    env[n] = known[n]
                    cap[n] = known[n]
                    r.replayed += 1
                else:
                    cap[n] = env.get(n)
                    r.fresh += 1
        else:
            for n, v in x[1].items():
                if x[0] == "mock" or (old[n] is None and not (refresh or complete) and v is not None):
                    env[n] = v
        opened.append((x, old, cap))
    if ok:
        r.ran = True
        r.seen = {n: env.get(n) for n in NAMES}
        r.text = "".join(ln + "\n" for ln in b["lines"])
        for n, v in b.get("setenv", {}).items():
            env[n] = v
        if b.get("end", "ok") in P.FAILS:
            ok = False
    for x, old, cap in reversed(opened):
        env.update(old)
        if x[0] == "snapshot":
            r.captured = dict(r.captured or {}, **cap)
            r.text += "\n# env snaphots:\n\n" + "".join(f" * {n}={v}\n" for n, v in cap.items())
    r.ok = ok
    assert {k: v for k, v in env.items() if v is not None} == {k: v for k, v in before.items() if v is not None}
    return r


def one(ctx, proj, stacks, held, base, args, history):
    flags, sel = P.split_args(args)
    par = G.parallel(args)
    chosen = P.choose(proj, sel, "-r" in flags)
    env = {k: v for k, v in base.items() if v is not None}
    values = dict(proj.values)
    want, tests, after = {}, {}, dict(held)
    for n in G.topological(proj, chosen) if par else chosen:
        c = proj.by[n]
        b = proj.behave[c.key]
        r = tests[n] = model(c, b, stacks, held, base, flags, any(x not in values for x in c.deps))
        if not r.ok:
            res = "FAIL"
        else:
            res = "OK" if n in held and held[n][0] == r.text else "DIFF"
            values[n] = rt.canon(rt.make(b["ret"]))
        if (res == "OK" and "-u" in flags) or (res == "DIFF" and "-a" in flags):
            res = "OK"
            after[n] = (r.text, r.captured)
            ctx.count("accepted")
        want[n] = res
        if r.missing:
            ctx.count("missing_snapshots")
        if r.ran:
            ctx.count("bodies_with_decorators", 1 if stacks[c.ref][0] or stacks[c.ref][1] else 0)
        ctx.count("replayed_variables", r.replayed)
        ctx.count("captured_variables", r.fresh)
    ctx.nontrivial([proj.spec, proj.behave, base, args, sorted(held.items())])
    ctx.count("runs")

    def call():
        import booktest.cli
        rv = 1
        try:
            rv = booktest.cli.main(list(args))
        except SystemExit as e:
            rv = e.code
        rt.log(ev="after", env={k: os.environ.get(k) for k in NAMES})
        return rv

    o = proj.invoke(args, env=env, call=call, quiesce=8)
    why = None
    seen = {proj.bykey[e["case"]].name: e["env"] for e in o.events if e["ev"] == "start"}
    final = [e["env"] for e in o.events if e["ev"] == "after"]
    results = {n: r for n, r in proj.records() if n in want}
    if o.hung or o.rc not in (0, 255):
        why = f"the run ended with status {o.rc}: {o.stderr[-400:]}"
    elif sorted(seen) != sorted(n for n, r in tests.items() if r.ran):
        why = f"executed {sorted(seen)} instead of {sorted(n for n, r in tests.items() if r.ran)}, missing " \
              f"{ {n: r.missing for n, r in tests.items() if r.missing} }"
    else:
        for n, e in seen.items():
            if e != tests[n].seen:
                d = {k: (e[k], tests[n].seen[k]) for k in NAMES if e[k] != tests[n].seen[k]}
                why = f"{n} with {stacks[proj.by[n].ref]} saw (seen, declared) {d}"
        if final and {k: v for k, v in final[0].items() if v is not None} != env:
            why = f"after the run the environment is {final[0]} instead of {env}"
        if not final:
            why = "the command did not return"
    if not why and results != want:
        why = f"the results are {results} instead of {want}"
    if not why:
        now = {}
        for n in after:
            text = proj.snap_text(n)
            p = os.path.join(proj.books, n, ".env.json")
            now[n] = (text, json.loads(P.slurp(p)) if os.path.exists(p) else None)
        if now != after:
            bad = {n: (now[n], after[n]) for n in after if now[n] != after[n]}
            why = f"the snapshots (stored, captured) are {bad}"
    if why:
        ctx.violation(f"{why} (arguments {args})", decorators=stacks, behaviours=proj.behave, environment=env,
                      history=history, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
        return False
    held.clear()
    held.update(after)
    proj.values = values
    return True
