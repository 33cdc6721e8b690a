"""Odd names of cases, files and books directories work as others, and runs write in the books directory only."""
import os

from vf import proj as P
from vf import projgen as G
from vf.checks import c19
from vf.core import tree, diff_trees

PLAN = {"quick": {"cases": 150, "seconds": 45}, "thorough": {"cases": 6000, "seconds": 900}}
ASPECTS = tuple(a for a in G.ALL)
ODD = ["a b", " lead", "trail ", "two  spaces", "it's", '"q"', "'", '"', "`touch PWNED`", "$(touch PWNED)", "${HOME}", "$HOME", "; touch PWNED;",
       "a;b", "a&touch PWNED", "a|b", "a > PWNED", "<x", "a && touch PWNED", "*", "a*", "?", "[ab]", "~", "~root", "-x", "-rf", "--", "--version",
       "#x", "a#b", "%s", "%(x)s", "{}", "{0}", "{a,b}", "!x", "!!", "\\", "a\\", "\\n", "a\\ b", "^", "a=b", "=", "a:b", ":", "a,b", "ä", "日本",
       "é", "😀", "ß", "İ", "(x)", "[x](y)", "<b>", "&amp;", "a.b", "a..b", "...", ".x", "x.", "con", "NUL", "0", "None", "OK", "DIFF", "true",
       "a.md", "a.txt", "x.log", "x.bin", "cases", "cases.txt", "index", "a" * 60, "@x", "+x", "$", "$$", "x$1", "''", '""', "' ; touch PWNED ; '",
       '" ; touch PWNED ; "', "a'b\"c`d", "test", "skip", "skip:x", "_", "__", "ﬁ", "A", "a"]
BOOKS = ["books"] * 3 + ["my books", "b'k", 'b"k', "$HOME", "b;touch PWNED", "`touch PWNED`", "$(touch PWNED)", "ä/böö", "-b", "b*", "a&b", "(b)", "~", "#b", "b\\"]


def part(rng, few):
    if rng.random() < 0.3:
        return rng.choice(["a", "b", "run", "x"])
    if rng.random() < 0.75:
        return rng.choice(few)
    chars = "ab09 '\"`$(){}[]<>|&;*?~!#%^=+,:\\@-_.äß€"
    while True:
        s = "".join(rng.choice(chars) for _ in range(rng.randint(1, 12)))
        if s.strip(". ") and not s.startswith("skip:"):
            return s


def clash(names):
    """cases whose files would be in the way of another's: the directories of one are files of another"""
    own = {}
    for n in names:
        for s in (".md", ".txt", ".log", ".bin", ".tmp", ""):
            if own.setdefault(n + s, n) != n:
                return True
    for n in names:
        parts = n.split("/")
        if any("/".join(parts[:k]) in own for k in range(1, len(parts))):
            return True
        if parts[0] in (".out", "index.md", "cases.txt", "metrics.json", ".batches") or parts[0].startswith(".out"):
            return True
    return False


def make(ctx, rng, d):
    # all of this runs as an unprivileged user that owns nothing but its scratch directory
    assert os.getuid() != 0
    while True:
        few = rng.sample(ODD, 6)
        old = G.PARTS
        G.PARTS = [part(rng, few) for _ in range(10)]
        roots = rng.choice([("test",), ("test", "book"), tuple(part(rng, few) for _ in range(2))])
        roots = [r for r in roots if not r.startswith((".", "skip:"))] or ["test"]
        try:
            spec = G.spec(rng, n=rng.randint(1, 5), dep=0.3, roots=roots)
            if rng.random() < 0.4:
                G.twins(rng, spec)
        finally:
            G.PARTS = old
        names = spec["order"]
        if not any(p in ("", ".", "..") for n in names for p in n.split("/")) and not clash(names) and "*" not in [n.split("/")[0] for n in names]:
            break
    proj = P.Project(d, spec)
    books = rng.choice(BOOKS)
    proj.bp = books
    proj.books = os.path.join(proj.dir, books)
    proj.out = os.path.join(proj.books, ".out")
    # what the rest of the project has is none of its business
    for f in ("notes.md", "data/x.txt", "other books/a.md", ".booktest"):
        p = os.path.join(proj.dir, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write("" if f == ".booktest" else f)
    return proj


def outside(proj):
    """everything but the books directory and the files of this harness"""
    rv = {}
    rel = os.path.relpath(proj.books, proj.root)
    for k, v in tree(proj.root).items():
        if k in ("stdin", "stdout", "stderr", "events", "behave.json", "tools", "tool.sh", rel) or k.startswith(rel + "/") \
                or "__pycache__" in k or rel.startswith(k + "/"):
            continue
        rv[k] = v
    return rv


def pick(rng, proj):
    sel = G.selection(rng, proj, p_default=0.05, p_all=0.4)
    # an argument that begins with a dash is an option
    return sel if not any(s.startswith("-") for s in sel) else ["*"]


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = make(ctx, rng, d)
        log = os.path.join(d, "tools")
        script = os.path.join(d, "tool.sh")
        with open(script, "w") as f:
            f.write(c19.SCRIPT)
        env = {"BOOKTEST_BOOKS_PATH": proj.bp, "VF_TOOLS": log}
        for k, t in c19.TOOLS.items():
            env["BOOKTEST_" + t.upper()] = f"bash {script} {k}"
        history = [proj.bp]
        for step in range(rng.randint(3, 5)):
            G.change(rng, proj, step, p=0.4, fail=rng.choice([0, 0.3]))
            for c in proj.cases:
                b = proj.behave[c.key]
                if step == 0 or rng.random() < 0.3:
                    names = [x for x in rng.sample(ODD, rng.choice([0, 1, 2])) if x not in ("...",)]
                    b["files"] = {n: f"{n} {rng.randrange(2)}\n" for n in names}
                b["pre"], b["mid"] = ([rng.choice([0, 0.002, 0.01])] for _ in range(2))
            before = outside(proj)
            if os.path.exists(log):
                os.unlink(log)
            cmd = "run" if step == 0 else rng.choice(["run", "run", "run", "review", "tool", "--print", "--path", "--view", "-l", "--garbage", "--clean", "--forget"])
            sel = pick(rng, proj) if step else ["*"]
            ctx.count("step_" + cmd.lstrip("-"))
            if not one(ctx, rng, proj, cmd, sel, env, log, history):
                return
            after = outside(proj)
            ctx.nontrivial([proj.spec, proj.behave, history])
            if after != before:
                ctx.violation(f"outside of {proj.bp!r} there were changed {diff_trees(before, after)[:6]} by {cmd} {sel}", spec=proj.spec, history=history)
                return
        for c in proj.cases:
            for p in c.name.split("/"):
                ctx.distinct("name_parts", p)
        ctx.sample({"case": i, "names": [c.name for c in proj.cases], "history": history})
    finally:
        ctx.drop(d)


def one(ctx, rng, proj, cmd, sel, env, log, history):
    if cmd == "run":
        args = rng.choice([[], ["-a"], ["-a"], ["-u"], ["-c"], ["-v"], ["-L"]]) + rng.choice([[], [], ["-p2"], ["-p3"], ["-p1"]]) + sel
        return G.check_step(ctx, proj, args, ASPECTS, history=history, env=env)[2]
    if cmd in ("review", "tool"):
        review = cmd == "review" and os.path.exists(os.path.join(proj.out, "metrics.json"))
        args = [rng.choice(["-i", "-I"])] + sel
        answers = [rng.choice("vldDacx") for _ in range(40)] + ["c"] * 40
        snaps = {c.name: proj.snap_text(c.name) is not None for c in proj.cases}
        if review:
            o, e, bad = G.check_review(ctx, proj, ["-w"] + args, answers, ASPECTS, history, env=env)
            go = not bad
        else:
            o, e, go = G.check_step(ctx, proj, args, ASPECTS, answers, history=history, env=env)
        if not go:
            return False
        want = []
        for k, n in e.tools:
            exp, out, lg = (os.path.normpath(os.path.join(proj.bp, x)) for x in (n + ".md", f".out/{n}.md", f".out/{n}.log"))
            want.append([k, lg] if k == "l" else [k] + ([exp] if k != "v" or snaps[n] else []) + [out])
        got = called(log)
        ctx.count("tool_calls", len(got))
        if got != want:
            ctx.violation(f"the tools were called with {[x for x in got if x not in want]} instead of {[x for x in want if x not in got]} ({len(got)} and {len(want)} calls)",
                          spec=proj.spec, history=history, called=got, expected=want)
            return False
        return True
    args = [cmd] + sel
    history.append(args)
    before, pre = proj.snapshots(), proj.records()
    chosen = P.choose(proj, P.split_args(sel)[1], False)
    o = proj.invoke(args, env=env)

    def bad(why):
        ctx.violation(f"{why} (arguments {args})", spec=proj.spec, books=proj.bp, history=history, stdout=o.stdout[-3000:], stderr=o.stderr[-1500:])
        return False

    if o.crashed or o.started or (o.rc != 0 and cmd != "--view"):
        return bad(f"the command ended with status {o.rc} after it ran {o.started}: {o.stderr[-300:]}")
    exps = {n: os.path.normpath(os.path.join(proj.bp, n + ".md")) for n in chosen}
    have = {n: proj.snap_text(n) for n in chosen if proj.snap_text(n) is not None}
    got, want, removed = None, None, set()
    if cmd == "--print":
        got, want = o.stdout, "".join(have.values())
    elif cmd == "--path":
        got, want = [os.path.normpath(x) for x in o.stdout.split("\n")[:-1]], list(exps.values())
    elif cmd == "--view":
        got, want = called(log), [["v"] + [exps[n] for n in have]] if have else []
    elif cmd == "-l":
        got, want = o.stdout.split("\n")[:-1], ["  " + n for n in chosen]
    elif cmd in ("--garbage", "--clean"):
        keep = [c.name for c in proj.cases]
        inside = {k: v for k, v in before.items() if v is not None}
        inside.update({".out/" + k: v for k, v in tree(proj.out).items() if v is not None} if cmd == "--garbage" else {})
        rest = {k for k in inside if not any(k == n + ".md" or k.startswith(n + "/") for n in keep)}
        lines = [os.path.relpath(x[8:] if cmd == "--clean" else x, proj.bp) for x in o.stdout.split("\n")[:-1]]
        if cmd == "--clean":
            lines = [x for x in lines if not x.startswith(".out/")]
            removed = rest
            proj.values = {}
        got, want = sorted(lines), sorted(rest)
    elif cmd == "--forget":
        got, want = proj.records(), [r for r in pre if r[0] not in chosen]
    if got != want:
        return bad(f"the result is {got} instead of {want}")
    if cmd not in ("--forget", "--clean") and proj.records() != pre:
        return bad(f"the records are {proj.records()} instead of {pre}")
    left = {k: v for k, v in before.items() if k not in removed}
    if proj.snapshots() != left:
        return bad(f"the snapshots differ: {diff_trees(left, proj.snapshots())[:6]}")
    return True


def called(log):
    if not os.path.exists(log):
        return []
    with open(log) as f:
        got = [ln.split("\t") for ln in f.read().split("\n")[:-1]]
    return [[x[0]] + [os.path.normpath(y) for y in x[1:]] for x in got]
