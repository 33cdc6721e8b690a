"""Detection, naming, listing and index of random trees of test modules."""
import os
import re

from vf import proj as P
from vf import rt

PLAN = {"quick": {"cases": 170, "seconds": 45}, "thorough": {"cases": 20000, "seconds": 900}}
WORDS = ["a", "b", "foo", "bar", "run", "data", "api", "v1", "x2y", "2", "names", "book", "test", "suite", "tests", "bookkeeper", "contest",
         "longer_name", "lib", "Upper", "CamelFile", "ABC", "9"]
CAMEL = ["Foo", "Bar", "Api", "V1", "Names", "X", "Url", "Data", "2nd", "Run", "Item3", "ABC", "Book", "Test", "Long"]
SUFFIX = ["", "Test", "Book", "TestBook", "Tests", "Suite", "Bookcase"]
METHODS = ["a", "b", "foo", "names", "b2", "0", "x_y", "_private", "Upper", "camelCase", "test", "run_test", "ab", "a_b"]
ASIDE = ["x.py", "mytest.py", "mybook.py", "test.py", "book.py", "suite.py", "testx.py", "x_tests.py", "x_test_util.py", "x_book.txt", "x_test.pyx",
         "test_x.txt", "x_book.py.bak", "x_suite.md", "my_test_x.py", "x_test.PY"]


def snake(name):
    """an underscore where a character that is not upper case precedes one that is"""
    return re.sub(r"(?<=[^A-Z])(?=[A-Z])", "_", name).lower()


def bare(name):
    """the name without test, book or test book at its end"""
    m = re.fullmatch(r"(.*?)_?(test_?book|book|test)", name, re.S)
    return m[1] if m else name


def ident(rng, words, n):
    return "_".join(rng.choice(words) for _ in range(rng.randint(1, n)))


class Tree:
    def __init__(self, rng):
        self.rng = rng
        self.files = {}
        self.cases = {}       # name -> key
        self.ordered = []     # lists of names that come in this order
        self.optional = set()
        self.n = 0
        self.books = []       # modules and classes that other modules may import
        self.imported = 0

    def key(self):
        self.n += 1
        return f"b{self.n}"

    def add(self, name, key):
        """False if the name is taken, or near to being a directory of another"""
        parts = name.split("/")
        if "" in parts or "." in parts or ".." in parts or any(p.startswith(".") for p in parts):
            return False
        if any(P.under(name, x) or P.under(x, name) for x in self.cases):
            return False
        self.cases[name] = key
        return True

    def add_all(self, pairs):
        done = []
        for name, key in pairs:
            if not self.add(name, key):
                for x in done:
                    del self.cases[x]
                return False
            done.append(name)
        return True

    def body(self, key, indent=""):
        return [f"{indent}    rt.log(ev='start', case={key!r}, path=t.test_path)", f"{indent}    t.tln({key!r})"]

    def function(self, name, key, indent="", me=""):
        a = self.rng.choice(["", "", "async "])
        deco = [indent + "@bt.mock_env({'VF_X': '1'})"] if self.rng.random() < 0.15 else []
        arg = "" if self.rng.random() < 0.9 else ", d=None"
        return deco + [f"{indent}{a}def {name}({me}t{arg}):"] + self.body(key, indent)

    def module(self, where, stem):
        rng = self.rng
        out = ["import booktest as bt", "from vf import rt", "import sys", ""]
        if rng.random() < 0.3:
            out += ["from booktest import TestBook, Tests, TestSuite", ""]
        base = where + "/" + bare(stem.lower())
        used = set()
        if self.books and rng.random() < 0.3:
            m, c = rng.choice(self.books)
            out += [rng.choice([f"from {m} import {c}", f"import {m} as other", f"from {m} import {c} as Other"]), ""]
            used.add(c)
            self.imported += 1
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            kind = rng.choice(["def", "def", "def", "class", "class", "argclass", "plain", "helper", "suite", "instance", "const"])
            key = self.key()
            if kind == "def":
                m = rng.choice(METHODS)
                if "test_" + m in used or not self.add(base + "/" + m, key):
                    continue
                used.add("test_" + m)
                out += self.function("test_" + m, key) + [""]
            elif kind in ("class", "argclass", "instance"):
                c = "".join(rng.choice(CAMEL) for _ in range(rng.randint(1, 3))) + rng.choice(SUFFIX)
                if rng.random() < 0.3:
                    # named as the file is
                    c = "".join(w[:1].upper() + w[1:] for w in stem.split("_"))
                if c[0].isdigit():
                    c = "N" + c
                if c in used or not c.isidentifier():
                    continue
                ms = rng.sample(METHODS, rng.randint(1, 4))
                keys = [self.key() for _ in ms]
                cleaned = bare(snake(c))
                path = base if bare(stem.lower()).replace("_", "") == cleaned.replace("_", "") else base + "/" + cleaned
                places = []
                if kind == "class":
                    places.append((path, None))
                if kind == "instance" or rng.random() < 0.3:
                    for v in range(rng.randint(1, 2)):
                        k = rng.random()
                        if k < 0.4:
                            full = "/".join(rng.choice(["own", "test", "x", "deep"]) for _ in range(rng.randint(1, 3))) + f"/{key}_{v}"
                            places.append((full, repr(full)))
                        elif k < 0.7:
                            nm = rng.choice(["n", "url_ops"]) + str(self.n)
                            places.append((path.rsplit("/", 1)[0] + "/" + nm, f"None, {nm!r}"))
                        else:
                            nm = f"k{self.n}{v}"
                            places.append((path.rsplit("/", 1)[0] + "/" + nm, f"name={nm!r}"))
                pairs = [(p + "/" + m, k) for p, _ in places for m, k in zip(ms, keys)]
                if not places and kind != "argclass" or not self.add_all(pairs):
                    continue
                used.add(c)
                if kind == "class" and "/2" not in "/" + where and "/9" not in where and not stem[0].isdigit():
                    self.books.append((where.replace("/", ".") + "." + stem, c))
                for p, _ in places:
                    self.ordered.append([p + "/" + m for m in ms])
                out += [f"class {c}(bt.TestBook):"]
                # constructible without arguments only for the kind class
                if kind == "class":
                    if rng.random() < 0.3:
                        out += ["    def __init__(self, full_path=None, name=None, more=1):", "        bt.TestBook.__init__(self, full_path, name)", ""]
                else:
                    out += rng.choice([["    def __init__(self, must, *a, **kw):", "        bt.TestBook.__init__(self, *must, *a, **kw)", ""],
                                       ["    def __init__(self, must, full_path=None, name=None):",
                                        "        bt.TestBook.__init__(self, full_path, name)", ""]])
                out += ["    attribute = 1", "", "    def not_a_test(self):", "        pass", "", "    def testing(self, t):", "        pass", ""]
                for m, k in zip(ms, keys):
                    out += self.function("test_" + m, k, "    ", "self, ") + [""]
                if rng.random() < 0.2:
                    out += ["    def tests(self, t):", "        pass", ""]
                out.append("")
                for v, (p, args) in enumerate(places):
                    if args is not None:
                        var = rng.choice(["inst", "a", "z", "test_inst"]) + f"_{key}_{v}"
                        out += [f"{var} = {c}({'(), ' if kind != 'class' else ''}{args})", ""]
            elif kind == "plain":
                out += [f"class Plain{key}:", "    def test_a(self, t):", "        raise RuntimeError('not a test')", ""]
            elif kind == "helper":
                out += [f"def {rng.choice(['helper', 'atest_', 'testx', 'Test_', '_test_', 'tests_'])}{key}(t):",
                        "    raise RuntimeError('not a test')", ""]
            elif kind == "const":
                out += [f"test_const_{key} = {rng.choice(['5', 'None', repr('x'), '[1]', 'object()', 'dict'])}", ""]
            elif kind == "suite":
                self.suite(out, key, where)
        self.files[where + "/" + stem + ".py"] = "\n".join(out) + "\n"

    def suite(self, out, key, where):
        rng = self.rng
        fns, pairs = [], []
        for n in range(rng.randint(1, 3)):
            k = self.key()
            fns.append(self.function(f"f_{k}", k) + [""])
            pairs.append((rng.choice(["a", "b", "sub/c", "x", "my/d", "test/e", "deep/own/my/f"]) + k, f"f_{k}", k))
        pre = rng.choice(["my", "my/suite", "test", "s_" + key])
        if rng.random() < 0.3:
            # the prefix again, further on
            pairs = [(rng.choice(["", "x/"]) + pre + "/" + n, f, k) for n, f, k in pairs]
        how = rng.choice(["suite", "tests", "merge", "drop", "drop", "nested"])
        code = lambda ps: "[" + ", ".join(rng.choice([f"({n!r}, {f})", f"[{n!r}, {f}]"]) for n, f, _ in ps) + "]"
        opt = set()
        if how == "suite":
            expr, cases = f"bt.TestSuite({pre!r}, {code(pairs)})", [(pre + "/" + n, k) for n, _, k in pairs]
        elif how == "tests":
            expr, cases = f"bt.Tests({code(pairs)})", [(n, k) for n, _, k in pairs]
        elif how == "merge":
            a, b = pairs[:1], pairs[1:]
            expr = f"bt.merge_tests([bt.TestSuite({pre!r}, {code(a)}), [bt.Tests({code(b)})], []])"
            cases = [(pre + "/" + n, k) for n, _, k in a] + [(n, k) for n, _, k in b]
        elif how == "nested":
            expr = f"bt.drop_prefix('q', bt.merge_tests([bt.TestSuite('q', bt.TestSuite({pre!r}, {code(pairs)}).cases)]))"
            cases = [(pre + "/" + n, k) for n, _, k in pairs]
        else:
            # what does not have the prefix is not renamed (kept or not)
            other = [(pre + rng.choice(["2/", "x/"]) + n, f, k) for n, f, k in pairs[1:] if rng.random() < 0.5]
            with_ = [(pre + "/" + n, f, k) for n, f, k in pairs if k not in [x[2] for x in other]]
            expr = f"bt.drop_prefix({pre + rng.choice(['', '/'])!r}, bt.Tests({code(with_ + other)}))"
            cases = [(n[len(pre) + 1:], k) for n, _, k in with_] + [(n, k) for n, _, k in other]
            opt = {n for n, _, _ in other}
        if not self.add_all(cases):
            return
        self.optional |= opt
        self.ordered.append([n for n, _ in cases])
        for f in fns:
            out += f
        out += [f"{rng.choice(['suite', 'tests', 'a', 'zz'])}_{key} = {expr}", ""]


def tree_of(rng):
    t = Tree(rng)
    roots = rng.choice([["test", "book", "run"], ["test"], ["test", "book"], ["book"], ["my_tests"], ["a/b", "c"]])
    config = ",".join(roots) if roots[0] not in ("test", "book") else rng.choice([None, ",".join(roots)])
    dirs = []
    for r in roots:
        dirs.append(r)
        deep = rng.random() < 0.3
        for _ in range(rng.randint(0, 3)):
            dirs.append((dirs[-1] if deep else rng.choice([d for d in dirs if d == r or d.startswith(r + "/")])) + "/" + ident(rng, [w for w in WORDS if w != "test"], 2))
    dirs = list(dict.fromkeys(dirs))
    stems = set()
    # a module and a package of the same name are not both importable
    lowdirs = {x.lower() for x in dirs}
    for d in dirs:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            w = ident(rng, WORDS, 2)
            stem = rng.choice([w + "_test", w + "_book", w + "_suite", "test_" + w, "test_" + w + "_book", w + "_test_book", w + "_testbook"])
            low = d + "/" + stem.lower()
            # two that are told apart by case alone are not for every file system
            if stem[0].isdigit() and rng.random() < 0.5 or low in stems or low in lowdirs:
                continue
            if not (stem.endswith(("_test", "_book", "_suite")) or stem.startswith("test_")):
                continue_ = True
            else:
                continue_ = False
            stems.add(low)
            if continue_:
                t.files[d + "/" + stem + ".py"] = TRAP
                continue
            t.module(d, stem)
        for _ in range(rng.choice([0, 0, 1, 2])):
            x = rng.choice(ASIDE)
            if (d + "/" + x).lower().rsplit(".", 1)[0] not in lowdirs:
                t.files.setdefault(d + "/" + x, TRAP)
    outside = rng.choice(["other/x_test.py", "tests/x_test.py", "x_test.py", "test_x.py", "testing/y_book.py"])
    if not any(outside.startswith(r + "/") for r in roots):
        t.files[outside] = TRAP
    for d in dirs + roots:
        parts = d.split("/")
        for n in range(len(parts)):
            p = "/".join(parts[:n + 1])
            # without it the name test is the one of the standard library
            if parts[0] == "test" or rng.random() < 0.4:
                t.files[p + "/__init__.py"] = ""
    return t, config


TRAP = "from vf import rt\nrt.log(ev='imported', file=__file__)\nimport booktest as bt\ndef test_trap(t):\n    rt.log(ev='start', case='trap', path='')\n"


def make(d, t):
    proj = P.Project(d, {"units": [], "order": []}, extra=t.files)
    for x in ("x_book.py", "__init__.py"):
        if "test/" + x not in t.files:
            os.remove(os.path.join(proj.dir, "test", x))
    if not os.listdir(os.path.join(proj.dir, "test")):
        os.rmdir(os.path.join(proj.dir, "test"))
    return proj


def index_of(text):
    """[(name by the headings, link)] or what is wrong with it"""
    rv, stack = [], []
    for ln in text.split("\n")[1:]:
        if not ln.strip():
            continue
        m = re.fullmatch(r"((?:    )*) \* (.*)", ln)
        if not m:
            return f"the line {ln!r} is neither heading nor link"
        depth = len(m[1]) // 4
        if depth > len(stack):
            return f"the line {ln!r} is below nothing"
        k = re.fullmatch(r"\[(.*)\]\((.*)\.md\)", m[2])
        if k:
            rv.append(("/".join(stack[:depth] + [k[1]]), k[2]))
            stack = stack[:depth]
        else:
            stack = stack[:depth] + [m[2]]
    return rv


def case(ctx, rng, i):
    t, config = tree_of(rng)
    d = ctx.newdir()
    try:
        proj = make(d, t)
        env = {} if config is None else {"BOOKTEST_TEST_PATHS": config}
        names = sorted(t.cases)
        ctx.nontrivial([t.files, config])
        ctx.count("modules", len(t.files))
        ctx.count("imported_books", t.imported)

        def bad(why, o):
            ctx.violation(why, config=config, files=t.files, expected=names, stdout=o.stdout[-3000:], stderr=o.stderr[-1500:])

        o = proj.invoke(["-l", "*"], env=env)
        lines = o.stdout.split("\n")
        got = [ln.strip() for ln in lines if ln.strip()]
        ctx.count("listings")
        ctx.count("listed_cases", len(got))
        if o.rc != 0:
            return bad(f"-l ended with status {o.rc}: {o.stderr[-400:]}", o)
        if any(e["ev"] == "imported" for e in o.events):
            return bad(f"a file was imported that is no test file: {o.events}", o)
        if o.started:
            return bad(f"-l ran {o.started}", o)
        miss = [n for n in names if n not in got and n not in t.optional]
        more = [n for n in got if n not in names]
        if miss or more or len(set(got)) != len(got):
            return bad(f"the tests found have {more} too many, {miss} missing, twice {sorted(n for n in set(got) if got.count(n) > 1)}", o)
        for ns in t.ordered:
            at = [got.index(n) for n in ns if n in got]
            if at != sorted(at):
                return bad(f"{ns} do not come in the order they are defined in", o)
        ctx.count("ordered_groups", len(t.ordered))
        known = list(got)
        if rng.random() < 0.4:
            # a program finds the same
            def call():
                import booktest as bt
                from booktest.detection import include_sys_path
                include_sys_path()
                out = []
                for p in ("test,book,run" if config is None else config).split(","):
                    out += bt.detect_test_suite(p).all_names()
                rt.log(ev="suite", names=out)
                return 0

            o = proj.invoke([], env=env, call=call)
            found = [e["names"] for e in o.events if e["ev"] == "suite"]
            ctx.count("suites_detected")
            if o.rc != 0 or [list(dict.fromkeys(x)) for x in found] != [known]:
                return bad(f"detect_test_suite finds {found} instead of {known}", o)
        # each name runs its own body, also alone
        sel = ["*"] if rng.random() < 0.6 or not known else [rng.choice(known)]
        par = rng.choice([[], [], [], ["-p2"]])
        o = proj.invoke(["-a"] + par + sel, env=env)
        run = [n for n in known if P.is_selected(n, sel)]
        ran = sorted((e["path"], e["case"]) for e in o.events if e["ev"] == "start")
        ctx.count("runs")
        ctx.count("bodies_run", len(ran))
        if o.rc != 0 or ran != sorted((n, t.cases[n]) for n in run):
            return bad(f"the run of {sel} {par} executed {ran} instead of {sorted((n, t.cases[n]) for n in run)} (status {o.rc})", o)
        for n in run:
            if proj.snap_text(n) != t.cases[n] + "\n":
                return bad(f"the snapshot of {n} is {proj.snap_text(n)!r}", o)
        with open(os.path.join(proj.books, "index.md")) as f:
            text = f.read()
        idx = index_of(text)
        ctx.count("indexes")
        if isinstance(idx, str):
            return bad(f"index.md: {idx}:\n{text}", o)
        if sorted(x[1] for x in idx) != sorted(known):
            return bad(f"index.md links {sorted(x[1] for x in idx)} instead of {sorted(known)}", o)
        for a, b in idx:
            if a != b:
                return bad(f"index.md has {b} under the headings of {a}:\n{text}", o)
        ctx.count("index_links", len(idx))
        ctx.sample({"case": i, "files": sorted(t.files), "found": known})
    finally:
        ctx.drop(d)
