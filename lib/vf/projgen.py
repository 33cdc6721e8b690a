"""Random projects, behaviours and histories; comparison of a step with the model."""
import os

from vf import proj as P
from vf import rt
from vf.core import tree

PARTS = ["a", "ab", "abc", "a_b", "alpha", "alpha_2", "b", "beta", "x", "y1", "run", "data", "use", "0", "z-9", "ä"]


def names(rng, n, roots=("test",), maxdepth=2, nested=False):
    rv = []
    for _ in range(400):
        if len(rv) >= n:
            break
        if rv and rng.random() < 0.35:
            # a name that begins as another one does, as text
            base = rng.choice(rv)
            x = base + rng.choice(["2", "_b", "x", "-"])
        elif rv and rng.random() < 0.4:
            x = rng.choice(rv).rsplit("/", 1)[0] + "/" + rng.choice(PARTS)
        else:
            x = "/".join([rng.choice(roots)] + [rng.choice(PARTS) for _ in range(rng.randint(1, maxdepth))])
        if x in rv or (not nested and any(P.under(x, y) or P.under(y, x) for y in rv)):
            continue
        rv.append(x)
    return rv


def resources(rng, pool):
    return [rng.choice(pool) for _ in range(rng.randint(1, 2))]


RES = [["port", 8080], ["port", 9090], ["res", 8080, None], ["res", "db", None], ["res", "x", "gpu"], ["res", "y", "gpu"],
       ["res", "8080", None]]


def spec(rng, n=None, dep=0.5, classes=True, asy=0.3, res=0.0, roots=("test",), nested=False, shuffle=True,
         respool=RES, deco=None, maxdeps=3):
    n = n if n is not None else rng.randint(2, 7)
    cls = []
    left = n
    if classes and n >= 3 and rng.random() < 0.4:
        for k in range(rng.choice([1, 1, 2])):
            ninst, nm = rng.choice([(1, 2), (2, 1), (2, 2), (1, 3)])
            if ninst * nm > left:
                continue
            left -= ninst * nm
            cls.append((ninst, nm))
    nfun = left
    paths = names(rng, nfun + sum(c[0] for c in cls), roots, nested=nested)
    nfun = min(nfun, len(paths))
    units, refs = [], []
    plan = ["f"] * nfun + [("c", k) for k in range(len(cls))]
    rng.shuffle(plan)
    paths = list(paths)
    nf = 0
    order = []
    for p in plan:
        def pick(extra=()):
            rv = []
            pool = refs + list(extra)
            while pool and len(rv) < maxdeps and rng.random() < dep:
                d = rng.choice(pool)
                if d not in rv:
                    rv.append(d)
                else:
                    break
            if rng.random() < res:
                for r in resources(rng, respool):
                    if r not in rv:
                        rv.insert(rng.randint(0, len(rv)), r)
            return rv
        if p == "f":
            u = {"kind": "func", "fn": f"f{nf}", "name": paths.pop(), "async": rng.random() < asy, "deps": pick()}
            if deco:
                u["deco"] = deco(rng)
            nf += 1
            refs.append(u["fn"])
            units.append(u)
            order.append(u["name"])
        else:
            ninst, nm = cls[p[1]]
            inst = [paths.pop() for _ in range(min(ninst, len(paths)))]
            if not inst:
                continue
            c = f"K{p[1]}"
            ms, own = [], []
            for k in range(nm):
                m = {"m": f"test_m{k}", "async": rng.random() < asy, "deps": pick(own)}
                if deco:
                    m["deco"] = deco(rng)
                own.append(f"{c}.{m['m']}")
                ms.append(m)
            units.append({"kind": "class", "cls": c, "methods": ms, "instances": inst})
            refs += own
            for i in inst:
                order += [f"{i}/m{k}" for k in range(nm)]
    if shuffle and rng.random() < 0.6:
        rng.shuffle(order)
    return {"units": units, "order": order}


def layers(rng):
    """cases in layers that depend on all or most of the layer before: the paths between two cases are very many"""
    width, depth = rng.choice([(2, 30), (2, 20), (3, 16), (4, 12), (1, 60)])
    units, before = [], []
    for k in range(depth):
        layer = []
        for j in range(width):
            fn = f"f{len(units)}"
            deps = list(before)
            rng.shuffle(deps)
            units.append({"kind": "func", "fn": fn, "name": f"test/l{k:02}/c{j}", "async": rng.random() < 0.3, "deps": deps})
            layer.append(fn)
        before = layer
    order = [u["name"] for u in units]
    if rng.random() < 0.7:
        rng.shuffle(order)
    return {"units": units, "order": order}


def twins(rng, spec):
    """names some cases as others but for a separator, such as a/b_c and a/b/c"""
    funcs = [u for u in spec["units"] if u["kind"] == "func" and "/" in u["name"]]
    for _ in range(rng.randint(1, 2)):
        if len(funcs) < 2:
            return
        u, v = rng.sample(funcs, 2)
        base = u["name"] if u["name"].count("/") > 1 else u["name"] + "/" + rng.choice(PARTS)
        parts = base.split("/")
        at = rng.randint(1, len(parts) - 1)
        new = "/".join(parts[:at]) + rng.choice("....__--+,") + "/".join(parts[at:])
        if len(parts) < 3 or base.startswith(".") or {base, new} & (set(spec["order"]) - {u["name"], v["name"]}) or nests({base, new} | set(spec["order"]) - {u["name"], v["name"]}):
            continue
        order = {u["name"]: base, v["name"]: new}
        spec["order"] = [order.get(n, n) for n in spec["order"]]
        u["name"], v["name"] = base, new


def nests(names):
    return any(a != b and (b.startswith(a + "/")) for a in names for b in names)


def value(rng, tag):
    k = rng.random()
    if k < 0.2:
        return ["none", None]
    kind = rng.choice(["int", "str", "list", "dict", "tuple", "set", "bytes", "obj", "big", "nested", "bool", "float"])
    x = {"int": rng.choice([0, len(tag), 7]), "str": tag, "list": [tag, 1, None], "dict": {"k": tag}, "tuple": [tag, 2],
         "set": [tag, "q"], "bytes": tag, "obj": tag, "big": tag, "nested": tag, "bool": rng.random() < 0.5,
         "float": rng.choice([0.0, 1.5, -2.25])}[kind]
    return [kind, x]


def behaviour(rng, key, step, fail=0.15, files=0.3, values=True, ends=P.FAILS, versions=2):
    b = {"lines": [f"# {key}", f"version {rng.randrange(versions)}"]}
    if rng.random() < 0.2:
        b["lines"].append("more")
    if rng.random() < 0.2:
        b["ignored"] = [f"step {step}"]
    if rng.random() < files:
        b["files"] = {n: f"{key} {rng.randrange(2)}\n" for n in rng.sample(["a.txt", "b.csv", "img.png", "data"], rng.randint(1, 2))}
        if rng.random() < 0.3:
            b["tmp"] = {"t.txt": "tmp"}
    if rng.random() < fail:
        b["end"] = rng.choice(ends)
    if values and rng.random() < 0.8:
        b["ret"] = value(rng, f"{key}@{step}")
    return b


def change(rng, proj, step, p=0.4, **kw):
    for c in proj.cases:
        if c.key not in proj.behave or rng.random() < p:
            proj.behave[c.key] = behaviour(rng, c.key, step, **kw)


def selection(rng, proj, p_all=0.35, p_default=0.15):
    k = rng.random()
    if k < p_default:
        return []
    if k < p_default + p_all:
        return ["*"]
    prefixes = set()
    for c in proj.cases:
        parts = c.name.split("/")
        for n in range(len(parts)):
            prefixes.add("/".join(parts[:n + 1]))
    prefixes = sorted(prefixes)
    rv = []
    for _ in range(rng.randint(1, 3)):
        s = rng.choice(prefixes)
        if rng.random() < 0.3:
            s = "skip:" + s
        rv.append(s)
    return rv


# ---------------------------------------------------------------- comparison

def parallel(args):
    return any(a.startswith("-p") for a in args) or "--parallel-count" in args


def run_step(ctx, proj, args, script=(), real=False, **kw):
    """invokes a run and returns (observation, expectation, before, after)"""
    par = parallel(args)
    before = proj.snapshots()
    pre = proj.records()
    pre_times, pre_total = proj.times(), proj.total()
    e0 = P.expect_run(proj, args, script) if not par else None
    o = proj.invoke(args, stdin="\n".join(script) + "\n" if script else "", real=real, **kw)
    o.pre, o.pre_times, o.pre_total = pre, pre_times, pre_total
    o.par = par
    o.before = before
    o.after_records = proj.records()
    o.after = proj.snapshots()
    if par:
        flags, sel = P.split_args(args)
        chosen = P.choose(proj, sel, "-r" in flags)
        old = dict(pre)
        todo = [n for n in chosen if not ("-c" in flags and old.get(n) == "OK")]
        kept = [r for r in pre if r[0] not in todo]
        tail = [r[0] for r in o.after_records[len(kept):]]
        o.order_ok = o.after_records[:len(kept)] == kept and sorted(tail) == sorted(todo)
        order = tail if o.order_ok else topological(proj, todo)
        # the records were observed before the snapshots could be read: use the old ones
        e = P.expect_run_on(proj, args, script, order, before, pre)
        e.todo = todo
    else:
        e = e0
        o.order_ok = True
    return o, e


def topological(proj, todo):
    rv = []
    visited = set()

    def add(n):
        for d in proj.by[n].deps:
            if d in todo and d not in visited:
                visited.add(d)
                add(d)
        if n not in rv:
            rv.append(n)
    for n in todo:
        add(n)
    return rv


def compare(proj, o, e, aspects):
    """[(aspect, what)] of everything that is not as promised"""
    rv = []

    def bad(aspect, what):
        if aspect in aspects:
            rv.append((aspect, what))

    if o.hung:
        bad("alive", "the run does not end: no test is running, the workers are idle and the run goes on waiting")
        return rv
    if o.rc < 0:
        bad("alive", f"the run was ended by signal {-o.rc}" + (" (CPU time limit)" if o.rc in (-24, -9) else ""))
        return rv
    if o.rc not in (0, 255) or (o.crashed and not o.par):
        bad("alive", f"the run ended with status {o.rc}: {o.stderr[-400:]}")
    bodies = [proj.bykey[k].name if k in proj.bykey else k for k in o.started]
    if o.par:
        if sorted(bodies) != sorted(e.bodies):
            bad("executed", f"executed {sorted(bodies)} instead of {sorted(e.bodies)}")
        if not o.order_ok:
            bad("records", f"the records are {o.after_records}, before the run {o.pre}, to run {e.todo}")
        elif o.after_records != e.records:
            bad("records", f"the records are {o.after_records} instead of {e.records}")
    else:
        if bodies != e.bodies:
            bad("order" if sorted(bodies) == sorted(e.bodies) else "executed", f"executed {bodies} instead of {e.bodies}")
        if o.after_records != e.records:
            bad("records", f"the records are {o.after_records} instead of {e.records}")
    if dict(o.after_records) != dict(e.records):
        bad("results", f"the results are {dict(o.after_records)} instead of {dict(e.records)}")
    if o.rc != e.rc:
        bad("exit", f"the exit status is {o.rc} instead of {e.rc} for {e.results}")
    seen = set()
    at = {}
    for ev in o.events:
        if ev["ev"] == "start":
            n = proj.bykey[ev["case"]].name if ev["case"] in proj.bykey else ev["case"]
            if n in seen:
                bad("once", f"{n} ran twice")
            seen.add(n)
            if n in e.received and ev["deps"] != e.received[n]:
                bad("values", f"{n} got {ev['deps']} instead of {e.received[n]} for {proj.by[n].args}")
            for d in proj.by[n].deps if n in proj.by else ():
                if d in e.bodies and at.get(d) != "ended":
                    bad("deporder", f"{n} started when its dependency {d} had not ended ({at.get(d)})")
            at[n] = "running"
        elif ev["ev"] == "end" and ev["case"] in proj.bykey:
            at[proj.bykey[ev["case"]].name] = "ended"
    want = P.apply_accept(proj, o.before, e)
    why = P.same_books(proj, want, o.after, ran=e.run)
    if why:
        bad("snapshots", f"accepted {e.accepted}, but the snapshots differ from that: {why[:6]}")
    if "summary" in aspects and not e.asked:
        rows, counts, listed = P.summary(o.stdout)
        want_rows = [(n, e.raw[n]) for n in e.run]
        if "-v" in e.flags:
            if P.verdicts(o.stdout) != [(n, e.raw[n]) for n in e.run]:
                bad("summary", f"the printed results are {P.verdicts(o.stdout)} instead of {want_rows}")
        elif rows != want_rows:
            bad("summary", f"the printed results are {rows} instead of {want_rows}")
        failed = [n for n in e.run if e.results[n] != "OK"]
        if counts != (len(failed), len(e.run)):
            bad("summary", f"the printed counts are {counts} instead of {(len(failed), len(e.run))}")
        if (listed or []) != failed:
            bad("summary", f"the printed failures are {listed} instead of {failed}")
    if "times" in aspects and not rv and o.rc in (0, 255) and not e.asked:
        for what in times(proj, o, e, e.run):
            bad("times", what)
    if "asked" in aspects:
        n = o.stdout.count(P.PROMPT)
        if n != len(e.answered):
            bad("asked", f"the user was asked {n} times instead of {len(e.answered)}: {e.asked}")
        n = o.stdout.count("(a)ccept, " + P.PROMPT)
        if n != getattr(e, "offers", 0):
            bad("asked", f"accepting was offered {n} times instead of {getattr(e, 'offers', 0)}: {e.asked}")
    return rv


def times(proj, o, e, fresh, ran=True):
    """what is not right about the recorded and the printed times of a command without questions"""
    got, total = proj.times(), proj.total()
    rows, printed = P.printed_times(o.stdout, "-v" in e.flags)
    ms = {}
    for n, x in got.items():
        try:
            ms[n] = float(x)
        except (TypeError, ValueError):
            return [f"the recorded time of {n} is {x!r}"]
        if not 0 <= ms[n] < 3600e3:
            return [f"the recorded time of {n} is {x!r}"]
    if not ran:
        old = {n: float(x) for n, x in o.pre_times.items()}
        if ms != old:
            return [f"the recorded times are {got} instead of {o.pre_times}"]
        if printed != (o.pre_total or 0):
            return [f"{printed} ms are printed as the time of the run, that took {o.pre_total} ms"]
    else:
        kept = {n: x for n, x in ms.items() if n not in fresh}
        old = {n: float(x) for n, x in o.pre_times.items() if n in kept}
        if kept != old:
            return [f"the recorded times of the cases, that did not run, are {kept} instead of {old}"]
        if total is None or printed != total or not 0 <= total < 3600e3:
            return [f"{printed} ms are printed as the time of the run, and {total} ms recorded"]
        if not o.par and sum(ms[n] for n in fresh) > total + 2 + 0.1 * total:
            return [f"the run took {total} ms, and its cases {[ms[n] for n in fresh]}"]
        begin = {}
        for ev in o.events:
            if ev["ev"] == "start":
                begin[ev["case"]] = ev["t"]
            elif ev["ev"] == "end" and ev["case"] in begin and ev["case"] in proj.bykey:
                n = proj.bykey[ev["case"]].name
                took = (ev["t"] - begin[ev["case"]]) / 1e6
                if took > 20 and n in fresh and ms[n] < took / 2:
                    return [f"the recorded time of {n} is {ms[n]} ms, its body took {took} ms"]
    if rows != [int(ms[n]) for n in fresh]:
        return [f"the times {rows} are printed, and {[ms[n] for n in fresh]} recorded"]
    return []


def describe(proj, args, script, o, e):
    return dict(spec=proj.spec, behaviours=proj.behave, args=args, answers=list(script), step=proj.steps,
                records_before=o.pre, records_after=o.after_records, exit=o.rc, stdout=o.stdout[-2500:],
                stderr=o.stderr[-1500:], executed=o.started, expected=dict(run=e.run, results=e.results, accepted=e.accepted))


def check_step(ctx, proj, args, aspects, script=(), real=False, history=None, **kw):
    """runs one step, reports what is not as promised; False ends the history"""
    o, e = run_step(ctx, proj, args, script, real, **kw)
    bad = compare(proj, o, e, aspects)
    ctx.count("commands")
    ctx.count("bodies_run", len(o.started))
    if history is not None:
        history.append([args, list(script)])
    for aspect, what in bad[:1]:
        ctx.violation(f"{aspect}: {what} (arguments {args})", history=history, **describe(proj, args, script, o, e))
    all_bad = bad or compare(proj, o, e, ALL)
    if all_bad:
        if not bad:
            ctx.count("histories_cut_short_" + all_bad[0][0])
        return o, e, False
    proj.values = e.values
    return o, e, True


ALL = ("alive", "executed", "order", "once", "records", "results", "exit", "values", "deporder", "snapshots", "asked")


# ---------------------------------------------------------------- review

def has_output(proj, name):
    import os
    return os.path.exists(os.path.join(proj.out, name + ".md"))


def expect_review(proj, args, script, pre):
    """what a review of these records does; (expectation, {accepted: (text, files)})"""
    flags, sel = P.split_args([a for a in args if a not in ("-w", "--review")])
    chosen = P.choose(proj, sel, "-r" in flags)
    it = iter(script)
    e = P.Expect()
    e.asked, e.answered, e.tools, e.accepted, e.run, e.results, e.raw = [], [], [], [], [], {}, {}
    e.flags = flags
    e.records = []
    quit_ = False
    outs = {n: has_output(proj, n) for n, _ in pre}
    texts = {}
    for n, res in pre:
        new = res
        if not quit_ and n in chosen and not ("-c" in flags and res == "OK"):
            e.run.append(n)
            e.raw[n] = res
            new, acc, q = P.review_one(e, n, res, flags, it, outs[n])
            quit_ = q or ("-f" in flags and new != "OK")
            if acc:
                e.accepted.append(n)
                base = os.path.join(proj.out, n)
                with open(base + ".md", "rb") as f:
                    texts[n] = (f.read(), tree(base) if os.path.isdir(base) else {})
        e.results[n] = new
        e.records.append((n, new))
    e.rc = 0 if all(r == "OK" for _, r in e.records) else 255
    return e, texts


def check_review(ctx, proj, args, script, aspects, history=None, env=None):
    before, pre = proj.snapshots(), proj.records()
    pre_times, pre_total = proj.times(), proj.total()
    e, texts = expect_review(proj, args, script, pre)
    flags = e.flags
    o = proj.invoke(args, stdin="\n".join(script) + "\n" if script else "", env=env)
    o.pre, o.pre_times, o.pre_total = pre, pre_times, pre_total
    rv = []
    if o.rc not in (0, 255) or o.crashed or o.hung:
        rv.append(("alive", f"the review ended with status {o.rc}: {o.stderr[-400:]}"))
    else:
        got = proj.records()
        if got != e.records:
            rv.append(("records", f"the records are {got} instead of {e.records}, before the review {pre}"))
        want = dict(before)
        for n in e.accepted:
            text, files = texts[n]
            for k in [k for k in want if k == n or k.startswith(n + "/")]:
                del want[k]
            want[n + ".md"] = text
            if os.path.isdir(os.path.join(proj.books, n)) or files:
                want[n] = None
            for f, x in files.items():
                want[n + "/" + f] = x
        why = P.same_books(proj, want, proj.snapshots())
        if why:
            rv.append(("snapshots", f"accepted {e.accepted}, but the snapshots differ from that: {why[:6]}"))
        if o.started:
            rv.append(("executed", f"the review ran {o.started}"))
        if o.rc != e.rc:
            rv.append(("exit", f"the exit status is {o.rc}, the reviewed results are {e.results}"))
        if "times" in aspects and not rv and not e.asked:
            rv += [("times", x) for x in times(proj, o, e, e.run, ran=False)]
        if not e.asked:
            rows, counts, listed = P.summary(o.stdout)
            if "-v" in flags:
                if P.verdicts(o.stdout) != [(n, e.raw[n]) for n in e.run]:
                    rv.append(("summary", f"the printed results are {P.verdicts(o.stdout)} instead of {[(n, e.raw[n]) for n in e.run]}"))
            elif rows != [(n, e.raw[n]) for n in e.run]:
                rv.append(("summary", f"the printed results are {rows} instead of {[(n, e.raw[n]) for n in e.run]}"))
            failed = [n for n, r in e.records if r != "OK"]
            if (listed or []) != failed:
                rv.append(("summary", f"the printed failures are {listed} instead of {failed}"))
        n = o.stdout.count(P.PROMPT)
        if n != len(e.answered):
            rv.append(("asked", f"the user was asked {n} times instead of {len(e.answered)}: {e.asked}"))
        n = o.stdout.count("(a)ccept, " + P.PROMPT)
        if n != getattr(e, "offers", 0):
            rv.append(("asked", f"accepting was offered {n} times instead of {getattr(e, 'offers', 0)}: {e.asked}"))
    if history is not None:
        history.append([args, list(script)])
    o.after_records = proj.records()
    bad = [x for x in rv if x[0] in aspects]
    for aspect, what in bad[:1]:
        ctx.violation(f"{aspect}: {what} (arguments {args})", history=history, **describe(proj, args, script, o, e))
    if rv and not bad:
        ctx.count("histories_cut_short_" + rv[0][0])
    return o, e, rv
