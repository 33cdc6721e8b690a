"""A parallel run gives the same results as a serial run."""
import os
import pickle
import re
import shutil

from vf import proj as P
from vf import projgen as G
from vf import rt
from vf.core import tree, diff_trees

PLAN = {"quick": {"cases": 40, "seconds": 40}, "thorough": {"cases": 4000, "seconds": 900}}


def outputs(proj):
    """the result files, their reports and the stored results (without what depends on time)"""
    rv = {}
    for k, v in tree(proj.out, (".batches",)).items() if os.path.isdir(proj.out) else ():
        if k in ("cases.txt", "metrics.json", "output.txt") or v is None:
            continue
        if k.endswith(".bin"):
            try:
                v = rt.canon(pickle.loads(v))
            except Exception as e:
                v = repr(e)
        if isinstance(v, bytes):
            # tracebacks name the project's directory
            v = v.split(b"Traceback (most recent call last)")[0]
        rv[k] = v
    return rv


HEAD = """
def vf_fun(*args, **kwargs):
    return rt.real_call("x_book.vf_fun", args, kwargs)
"""


def decorators(rng):
    rv = []
    if rng.random() < 0.3:
        rv.append(f'bt.snapshot_env({", ".join(repr(x) for x in rng.sample(["VF_A", "VF_B", "VF_C"], rng.randint(1, 2)))})')
    if rng.random() < 0.15:
        rv.append(rng.choice(['bt.mock_env({"VF_M": "1", "VF_A": None})', 'bt.mock_missing_env({"VF_M": "2"})']))
    if rng.random() < 0.2:
        rv.append("bt.snapshot_functions(vf_fun)")
    return rv


def blocks(stdout):
    """the verbose output of each case"""
    rv = {}
    name, cur = None, []
    for ln in stdout.split("\n"):
        m = re.match(r"test (\S.*)\.\.\.$", ln)
        if m:
            name, cur = m.group(1), []
        if name is not None:
            cur.append(re.sub(r" in \d+ ms", "", ln))
            if ln.startswith(name.rsplit("/", 1)[-1] + " ") or ln.startswith(name + " "):
                text = "\n".join(cur)
                if "Traceback" not in text:
                    rv[name] = text
                name = None
    return rv


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        roots = [os.path.join(d, x) for x in ("serial", "parallel")]
        spec = G.spec(rng, n=rng.randint(2, 9), res=0.2, deco=decorators if rng.random() < 0.5 else None)
        if rng.random() < 0.4:
            G.twins(rng, spec)
        spec["head"] = HEAD
        projs = []
        for r in roots:
            os.makedirs(r)
            projs.append(P.Project(r, spec))
        a, b = projs
        history = []
        for step in range(rng.randint(1, 4)):
            G.change(rng, a, step, p=0.5, fail=rng.choice([0, 0.15, 0.4]), files=0.3)
            for c in a.cases:
                if rng.random() < 0.3:
                    a.behave[c.key]["mid"] = [rng.choice([0, 0.001, 0.01, 0.03])]
                a.behave[c.key]["show"] = step % 2 == 1
                a.behave[c.key]["look"] = True
                if rng.random() < 0.3:
                    a.behave[c.key]["calls"] = [["x_book.vf_fun", [rng.randrange(3)], {}, False] for _ in range(rng.randint(1, 2))]
                    a.behave[c.key]["print_results"] = True
                a.behave[c.key]["env"] = ["VF_A", "VF_B", "VF_C", "VF_M"]
            a.behave["functions"] = {"version": rng.randrange(2)}
            b.behave = a.behave
            args = list(rng.choice([[], ["-a"], ["-u"], ["-c"], ["-c", "-a"], ["-a", "-u"], ["-r"], ["-L"]]))
            args += rng.choice([[], [], ["-s"], ["-S"], ["-s", "-a"], ["-S", "-a"]]) if step else rng.choice([["-s", "-a"], []])
            verbose = rng.random() < 0.3
            args += ["-v"] if verbose else []
            env = {k: rng.choice(["1", "2", "", "ä b"]) for k in ("VF_A", "VF_B", "VF_C", "VF_M") if rng.random() < 0.6}
            args += G.selection(rng, a, p_all=0.6)
            par = rng.choice(["-p1", "-p2", "-p3", "-p4", "-p8", "-p"])
            real = (step == 0 and i // ctx.shards == 3) if ctx.quick else rng.random() < 0.1
            oa = a.invoke(args, env=env)
            ob = b.invoke([par] + args, env=env, real=real, quiesce=8, perturb=rng.random() if rng.random() < 0.5 else None)
            history.append([args, par, real])
            ctx.count("pairs")
            if real:
                ctx.count("pairs_with_spawned_workers")
            ctx.count("bodies_run", len(oa.started))
            ctx.distinct("completion_orders", [spec, [e["case"] for e in ob.events if e["ev"] == "end"]])
            ctx.count("workers_used", len({e["pid"] for e in ob.events}))
            ctx.nontrivial([spec, a.behave, args])
            ctx.count("snapshotting_pairs", "-s" in args or "-S" in args)
            why = differs(a, b, oa, ob)
            if not why and verbose:
                va, vb = blocks(oa.stdout), blocks(ob.stdout)
                ctx.count("verbose_blocks", len(va))
                if va != vb:
                    why = f"the verbose output is {[vb.get(k) for k in va if vb.get(k) != va[k]]}, serial {[va[k] for k in va if vb.get(k) != va[k]]}, cases {sorted(va)} and {sorted(vb)}"
            if why:
                ctx.violation(f"{why} (arguments {args} {par})", spec=spec, behaviours=a.behave, history=history,
                              serial=[oa.rc, oa.stdout[-1500:], a.records()], parallel=[ob.rc, ob.stdout[-1500:], ob.stderr[-1500:], b.records()])
                return
        ctx.sample({"case": i, "spec": spec, "history": history, "records": b.records()})
    finally:
        ctx.drop(d)


def differs(a, b, oa, ob):
    if ob.hung:
        return "the parallel run does not end"
    if ob.rc != oa.rc:
        return f"the exit status is {ob.rc}, serial {oa.rc}"
    if sorted(oa.started) != sorted(ob.started):
        return f"executed {sorted(ob.started)}, serial {sorted(oa.started)}"
    ra, rb = a.records(), b.records()
    if sorted(ra) != sorted(rb):
        return f"the records are {rb}, serial {ra}"
    got = {e["case"]: (e["deps"], e["dirs"], e["env"]) for e in oa.events if e["ev"] == "start"}
    for e in ob.events:
        if e["ev"] == "start" and got[e["case"]] != (e["deps"], e["dirs"], e["env"]):
            return f"{e['case']} got {(e['deps'], e['dirs'], e['env'])}, serial {got[e['case']]}"
    if a.snapshots() != b.snapshots():
        return f"the snapshots differ from the serial ones: {diff_trees(a.snapshots(), b.snapshots())[:5]}"
    fa, fb = outputs(a), outputs(b)
    if fa != fb:
        return f"the result files differ from the serial ones: {diff_trees(fa, fb)[:5]}"
    ia, ib = (P.slurp(os.path.join(x.books, "index.md")) for x in (a, b))
    if ia != ib:
        return "the index differs from the serial one"
    return None
