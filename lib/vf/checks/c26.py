"""--garbage lists and --clean removes exactly what belongs to no existing case."""
import os

from vf import proj as P
from vf import projgen as G

PLAN = {"quick": {"cases": 110, "seconds": 40}, "thorough": {"cases": 20000, "seconds": 900}}
ODD = ["a b.txt", "ä.md", "x'y", '"q"', "$HOME.md", "-rf", "*", ".hidden", "a;b", "index.md", ".env.json", "image (1).png", "a.md.bak",
       "#x#", "%s", "\\n", "~", "a\tb", "{}", "`id`", "x.md ", " x.md", "日本.txt", "con", "a.MD", "A.md"]
BOOKS = ["books", "books", "books", "books/", "./books", "my books", "out/deep/books", "b'k", "books.d"]


def grow(rng, proj, books):
    """random files around the names of the cases"""
    files = {}

    def put(p):
        files[p] = "link" if rng.random() < 0.05 and not p.startswith(".out/") else "file"

    names = [c.name for c in proj.cases]
    for n in names:
        k = rng.random()
        if k < 0.75:
            put(n + ".md")
        for _ in range(rng.choice([0, 0, 1, 3])):
            put(n + "/" + rng.choice(["x.txt", "sub/y", ".functions/abc.json", "sub/sub/z.md", rng.choice(ODD)]))
        # what is close to it, but not part of it
        for _ in range(rng.choice([0, 1, 2, 4])):
            base = rng.choice([n, n.rsplit("/", 1)[0], n.split("/")[0]])
            put(base + rng.choice([".txt", ".md.tmp", ".mdx", "2.md", "_b.md", ".d/x", "2/x.txt", "-old/y.md", "x/" + rng.choice(ODD), ".log", ".bin"]))
    for _ in range(rng.randint(0, 6)):
        put(rng.choice(["", "test/", "other/", "test/gone/", "zz/"]) + rng.choice(ODD + ["gone.md", "gone/x.txt"]))
    for _ in range(rng.randint(0, 5)):
        n = rng.choice(names)
        put(".out/" + rng.choice(["cases.txt", "metrics.json", n + ".md", n + ".bin", n + ".tmp/x", ".batches/x/output.txt", rng.choice(ODD)]))
    if rng.random() < 0.7:
        put("index.md")
    put_ = {}
    for p, kind in files.items():
        parts = p.split("/")
        if any("/".join(parts[:k]) in files for k in range(1, len(parts))) or any(q.startswith(p + "/") for q in files):
            continue
        put_[p] = kind
    for p, kind in put_.items():
        a = os.path.join(books, p)
        try:
            os.makedirs(os.path.dirname(a), exist_ok=True)
            if os.path.lexists(a):
                continue
            if kind == "link":
                os.symlink(os.path.join(proj.dir, rng.choice(["outside/a.txt", "outside", "nowhere"])), a)
            else:
                with open(a, "w") as f:
                    f.write(p)
        except (NotADirectoryError, FileExistsError, IsADirectoryError):
            pass
    # empty directories
    for _ in range(rng.randint(0, 2)):
        try:
            os.makedirs(os.path.join(books, rng.choice(["empty", "test/empty", names[0]])), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            pass


def everything(top):
    """every entry below, links not followed"""
    rv = {}
    for base, dirs, files in os.walk(top):
        for x in dirs + files:
            p = os.path.join(base, x)
            rel = os.path.relpath(p, top)
            if os.path.islink(p):
                rv[rel] = "-> " + os.readlink(p)
            elif os.path.isdir(p):
                rv[rel] = None
            else:
                with open(p, "rb") as f:
                    rv[rel] = f.read()
    return rv


def is_file(top, rel, v):
    # a link to a directory is not a file
    return v is not None and not (isinstance(v, str) and os.path.isdir(os.path.join(top, rel)))


def is_kept(rel, names):
    return rel == "index.md" or any(rel == n + ".md" or rel.startswith(n + "/") for n in names)


def case(ctx, rng, i):
    d = ctx.newdir()
    try:
        proj = P.Project(d, G.spec(rng, n=rng.randint(1, 6), dep=0.2, roots=("test", "test", "book", "other"), nested=rng.random() < 0.2))
        bp = rng.choice(BOOKS)
        env = {} if bp == "books" else {"BOOKTEST_BOOKS_PATH": bp}
        if rng.random() < 0.1:
            bp = os.path.join(proj.dir, "abs books")
            env = {"BOOKTEST_BOOKS_PATH": bp}
        books = os.path.normpath(os.path.join(proj.dir, bp))
        os.makedirs(os.path.join(proj.dir, "outside"))
        with open(os.path.join(proj.dir, "outside", "a.txt"), "w") as f:
            f.write("not of booktest")
        ran = rng.random() < 0.4
        G.change(rng, proj, 0, p=1, fail=0.1)
        if ran:
            proj.invoke(["-a", "*"], env=env)
        names = [c.name for c in proj.cases]
        history = [bp, ran]
        for step in range(rng.randint(1, 3)):
            grow(rng, proj, books)
            for cmd in rng.choice([["--garbage"], ["--clean"], ["--garbage", "--clean"], ["--garbage", "--clean", "--garbage"]]):
                before = everything(proj.dir)
                inb = {os.path.relpath(os.path.join(proj.dir, k), books): v for k, v in before.items()
                       if os.path.join(proj.dir, k).startswith(books + "/")}
                want = sorted(k for k, v in inb.items() if is_file(books, k, v) and not is_kept(k, names))
                args = [cmd] + rng.choice([[], [], ["-v"], ["-c"], ["-r"], ["-p2"], ["-a", "-u"]]) + rng.choice([[], ["*"], G.selection(rng, proj)])
                o = proj.invoke(args, env=env)
                after = everything(proj.dir)
                history.append(args)
                ctx.count("commands")
                ctx.count("garbage_files", len(want))
                ctx.count("kept_files", sum(is_file(books, k, v) for k, v in inb.items()) - len(want))
                ctx.nontrivial([names, sorted(before), cmd, bp])

                def bad(why):
                    ctx.violation(f"{why} (arguments {args})", history=history, cases=names, files=sorted(before), stdout=o.stdout[-3000:], stderr=o.stderr[-1500:])

                if o.rc != 0 or o.hung:
                    return bad(f"the command ended with status {o.rc}: {o.stderr[-300:]}")
                if o.started:
                    return bad(f"the tests {o.started} ran")
                lines = o.stdout.split("\n")[:-1]
                if cmd == "--clean":
                    if any(not ln.startswith("removed ") for ln in lines):
                        return bad("the printed lines are not of removed files")
                    lines = [ln[8:] for ln in lines]
                got = sorted(os.path.relpath(os.path.join(proj.dir, ln), books) for ln in lines)
                if got != want:
                    return bad(f"the files are {[x for x in got if x not in want]} too many, {[x for x in want if x not in got]} missing"
                               if sorted(set(got)) != want else f"files are listed more than once: {got}")
                left = dict(before)
                if cmd == "--clean":
                    for x in want:
                        del left[os.path.relpath(os.path.join(books, x), proj.dir)]
                    ctx.count("removed_files", len(want))
                if after != left:
                    return bad(f"missing {sorted(set(left) - set(after))}, new {sorted(set(after) - set(left))}, "
                               f"changed {sorted(k for k in left if k in after and left[k] != after[k])}")
        ctx.sample({"case": i, "cases": names, "history": history})
    finally:
        ctx.drop(d)
