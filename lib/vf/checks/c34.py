"""Measuring coverage changes nothing but the coverage files, which tell what this run executed."""
import os
import re
import xml.etree.ElementTree as ET

from vf import proj as P
from vf import projgen as G
from vf.checks.c15 import outputs
from vf.checks.c32 import events
from vf.core import diff_trees, tree

PLAN = {"quick": {"cases": 60, "seconds": 40}, "thorough": {"cases": 3000, "seconds": 900}}
FILES = {".coverage", "coverage.xml"}
USER = {".coveragerc-old": "[run]\n", "coverage_notes.txt": "mine\n", ".coverage_keep": "mine\n", "coverage.xml.bak": "mine\n",
        ".coveragedata/x": "mine\n"}


def library(rng):
    """functions with known lines: (text, {function: [(line, modulus, rest)]}), modulus None: whenever called"""
    out = ["from vf import rt", "", ""]
    funs = {}
    for k in range(rng.randint(1, 4)):
        out.append(f"def f{k}(x):")
        lines = []

        def put(text, m=None, r=None):
            out.append(text)
            lines.append((len(out), m, r))
        put(f"    rt.log(ev='lib', f='f{k}', x=x)")
        put("    y = []")
        for b in range(rng.randint(1, 4)):
            m = rng.randint(2, 3)
            r = rng.randrange(m)
            put(f"    if x % {m} == {r}:")
            put(f"        y.append({b})", m, r)
            if rng.random() < 0.5:
                out.append("    else:")
                for rest in [sorted(set(range(m)) - {r})]:
                    out.append(f"        y.append(-{b})")
                    lines.append((len(out), m, tuple(rest)))
        put("    return y")
        out += ["", ""]
        funs[f"f{k}"] = lines
    return "\n".join(out).rstrip("\n") + "\n", funs


def hit(funs, evs):
    """(all the functions' lines, those that ran)"""
    every = {n for ls in funs.values() for n, _, _ in ls}
    ran = set()
    for e in evs:
        if e["ev"] == "lib":
            for n, m, r in funs[e["f"]]:
                if m is None or (e["x"] % m in r if isinstance(r, (list, tuple)) else e["x"] % m == r):
                    ran.add(n)
    return every, ran


def measured(path, name):
    """{line: hits} of a file in coverage.xml, None without one"""
    for c in ET.parse(path).getroot().iter("class"):
        if c.get("filename").replace("\\", "/").endswith(name):
            return {int(x.get("number")): int(x.get("hits")) for x in c.iter("line")}
    return None


def plain(text, d):
    text = text.replace(d, "<dir>")
    text = re.sub(r"\d+ ms", "N ms", text)
    return re.sub(r"0x[0-9a-f]+", "0x", text)


def warnings(text):
    """without what the coverage package warns"""
    lines, out, skip = text.split("\n"), [], False
    for ln in lines:
        if skip:
            skip = False
            if ln.startswith("  "):
                continue
        if "CoverageWarning" in ln:
            skip = True
            continue
        out.append(ln)
    return "\n".join(out)


def user_files(p):
    """the project's directory without the books and what coverage writes"""
    return {k: v for k, v in tree(p.dir, ("books", "__pycache__")).items()
            if k not in FILES and not k.startswith(".coverage.") and "__pycache__" not in k}


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        spec = G.spec(rng, n=rng.randint(1, 6), asy=0.3, dep=0.3)
        lib, funs = library(rng)
        extra = {"test/x_lib.py": lib}
        conf = rng.choice(["none", "source", "source", "multi", "multi", "include", "nothing", "nothing"])
        multi = conf == "multi" or conf == "nothing" and rng.random() < 0.5
        rc = ["[run]"] + (["concurrency = multiprocessing"] if multi else []) + (["branch = True"] if rng.random() < 0.5 else [])
        rc += {"source": ["source = test"], "multi": ["source = test"], "include": ["include = */x_lib.py"], "nothing": ["include = nowhere/*"], "none": []}[conf]
        if conf != "none":
            extra[".coveragerc"] = "\n".join(rc) + "\n"
        for k, v in USER.items():
            if rng.random() < 0.5:
                extra[k] = v
        projs = []
        for name in ("plain", "cover"):
            os.makedirs(os.path.join(d, name))
            projs.append(P.Project(os.path.join(d, name), spec, extra))
        a, b = projs
        start = user_files(b)
        history = []
        unordered = False
        for step in range(rng.randint(1, 3)):
            par = rng.random() < 0.25
            unordered |= par
            G.change(rng, a, step, p=0.5, fail=rng.choice([0, 0.15, 0.4]), files=0.3)
            for c in a.cases:
                x = a.behave[c.key]
                x.pop("calls", None)
                if rng.random() < 0.6:
                    x["calls"] = [["x_lib." + rng.choice(sorted(funs)), [rng.randrange(6)], {}, False] for _ in range(rng.randint(1, 2))]
                    x["print_results"] = True
            b.behave = a.behave
            args = list(rng.choice([[], ["-a"], ["-a"], ["-u"], ["-c"], ["-c"], ["-r"], ["-f"], ["-v"], ["-v", "-L"], ["-i"], ["-l"], ["--print"], ["--path"], ["--garbage"]]))
            run = args[:1] not in (["-l"], ["--print"], ["--path"], ["--garbage"])
            script = "".join(rng.choice("acaaf") + "\n" for _ in range(12)) + "c\n" * rng.choice([0, 80, 80, 80]) if "-i" in args else ""
            if par:
                args = [x for x in args if x not in ("-f", "-i")] + [rng.choice(["-p1", "-p2", "-p4"])]
            args += G.selection(rng, a, p_all=0.6)
            before = {k: v for k, v in tree(b.dir, ("books", "test")).items()}
            oa = a.invoke(args, stdin=script, quiesce=8 if par else 0)
            how = rng.choice(["--cov", "--cov", "env"])
            ob = b.invoke(["--cov"] + args if how == "--cov" else args, stdin=script, quiesce=8 if par else 0,
                          env={"BOOKTEST_COVERAGE": "1"} if how == "env" else None)
            history.append([args, how])
            ctx.count("pairs")
            ctx.count("parallel_pairs", par)
            ctx.count("bodies_run", len(oa.started))
            ctx.count("coverage_without_data", conf == "nothing" and run)
            ctx.distinct("configurations", [conf, multi, how, args[:1], par])
            ctx.nontrivial([spec, a.behave, args, rc])
            why = differs(a, b, oa, ob, par, unordered)
            if not why and user_files(b) != start:
                why = f"other files of the project change: {diff_trees(start, user_files(b))[:5]}"
            if not why and not run:
                now = {k: v for k, v in tree(b.dir, ("books", "test")).items()}
                if now != before:
                    why = f"a command that runs nothing changes coverage files: {diff_trees(before, now)[:5]}"
            xml = os.path.join(b.dir, "coverage.xml")
            if not why and run and conf != "nothing" and (not par or multi):
                every, ran = hit(funs, ob.events)
                got = measured(xml, "x_lib.py") if os.path.exists(xml) else None
                if got is None and ran:
                    why = f"there is no coverage.xml with the library, of which lines {sorted(ran)} ran"
                else:
                    have = {n for n, h in (got or {}).items() if h > 0 and n in every}
                    ctx.count("lines_compared", len(every))
                    ctx.count("lines_run", len(ran))
                    if have != ran:
                        why = f"coverage.xml has lines {sorted(have)} of the library as run, this run ran {sorted(ran)}"
                if not why and ran and not ob.crashed and "x_lib.py" not in ob.stdout:
                    why = "the printed report does not name the library"
            if why:
                ctx.violation(f"{why} (arguments {args}, coverage by {how}, configuration {conf})", spec=spec, behaviours=a.behave, history=history,
                              without=[oa.rc, oa.stdout[-1500:], a.records()],
                              with_coverage=[ob.rc, ob.stdout[-2500:], ob.stderr[-2500:], b.records()])
                return
        ctx.sample({"case": i, "configuration": conf, "history": history, "records": b.records()})
    finally:
        ctx.drop(d)


def differs(a, b, oa, ob, par, unordered):
    if oa.hung or ob.hung:
        return f"the run does not end (without coverage {oa.hung}, with coverage {ob.hung})"
    if ob.rc != oa.rc:
        return f"the exit status is {ob.rc}, without coverage {oa.rc}"
    ea, eb = events(oa, par), events(ob, par)
    if ea != eb:
        n = [k for k in range(max(len(ea), len(eb))) if ea[k:k + 1] != eb[k:k + 1]][0]
        return f"event {n} is {eb[n:n + 1]}, without coverage {ea[n:n + 1]}"
    ra, rb = a.records(), b.records()
    if (sorted(ra, key=str) != sorted(rb, key=str)) if unordered else (ra != rb):
        return f"the records are {rb}, without coverage {ra}"
    fa, fb = a.snapshots(), b.snapshots()
    if fa != fb:
        return f"the snapshots differ from those without coverage: {diff_trees(fa, fb)[:5]}"
    fa, fb = outputs(a), outputs(b)
    if fa != fb:
        return f"the result files differ from those without coverage: {diff_trees(fa, fb)[:5]}"
    if not par:
        ta, tb = plain(oa.stdout, a.dir), plain(ob.stdout, b.dir)
        if not tb.startswith(ta):
            return f"the output is {tb[:600]!r}, without coverage {ta[:600]!r}"
        if tb[len(ta):].strip() and not re.match(r"\s*(Name .*Stmts|.*[Cc]overage)", tb[len(ta):]):
            return f"the output goes on with {tb[len(ta):][:300]!r}"
    elif P.summary(oa.stdout)[1] != P.summary(ob.stdout)[1]:
        return f"the summary is {P.summary(ob.stdout)}, without coverage {P.summary(oa.stdout)}"
    return None
