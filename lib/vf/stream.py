"""
The text stream of one test: a small program of writing calls (JSON), an
interpreter that makes the calls on the real test object, and a reference
model that says what must come out of it (text, line marks, result).
"""
import contextlib
import io
import json
import os
import re
import shutil
import sys

from vf.core import CpuExceeded, cpu_guard

ANY = re.compile(r"[^\n]*", re.S)


# ---------------------------------------------------------------- tokens

def tokenize(s):
    """blanks, signed decimal numbers, words, and single other characters"""
    rv = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        j = i + 1
        if c in " \t":
            while j < n and s[j] in " \t":
                j += 1
        else:
            k = i + 1 if c in "+-" else i
            if k < n and s[k].isnumeric():
                while k < n and s[k].isnumeric():
                    k += 1
                if k + 1 < n and s[k] == "." and s[k + 1].isnumeric():
                    k += 1
                    while k < n and s[k].isnumeric():
                        k += 1
                j = k
            elif c.isalnum():
                while j < n and s[j].isalnum():
                    j += 1
        rv.append(s[i:j])
        i = j
    return rv


def boundaries(s):
    rv, at = {0}, 0
    for t in tokenize(s):
        at += len(t)
        rv.add(at)
    return rv


def norm(s):
    # surrogates are written as escapes
    return s.encode("utf-8", "backslashreplace").decode().replace("\r\n", "\n").replace("\r", "\n")


# ---------------------------------------------------------------- reference model

class Speechless(Exception):
    def __str__(self):
        raise ValueError("no words")


class Line:
    def __init__(self, text, mark, exp, loose=False):
        self.text = text        # str, or a compiled pattern of the whole line
        self.mark = mark        # " ", "?", "!"
        self.exp = exp          # snapshot line shown next to it, None at the end
        self.loose = loose      # the mark / snapshot line is not specified

    def __repr__(self):
        return f"{self.mark} {self.text!r}"


class Model:
    """What booktest promises about a stream of writing calls against a snapshot."""

    def __init__(self, snap, name="x"):
        self.name = name
        self.has = snap is not None
        self.exp = []
        if snap:
            self.exp = snap.split("\n")
            if self.exp[-1] == "":
                self.exp.pop()
        self.at = 0                 # snapshot line
        self.toks, self.k = None, 0
        self.rest = None
        self.load()
        self.cur = ""
        self.pattern = None         # set when the current line has unpredictable content
        self.lines = []
        self.d = self.f = False
        self.loose = False
        self.checked = False
        self.fails = self.diffs = 0
        self.tail_open = False

    # snapshot cursor
    def load(self):
        if self.rest is not None:
            self.d = True
        self.rest = None
        self.k = 0
        self.toks = tokenize(self.exp[self.at]) if self.at < len(self.exp) else None

    def line(self):
        return self.exp[self.at] if self.at < len(self.exp) else None

    def goto(self, n):
        self.at = n
        self.load()

    def head(self):
        if self.toks is None:
            return None
        return self.toks[self.k] if self.k < len(self.toks) else "\n"

    def take(self):
        t = self.head()
        if self.toks is not None and self.k < len(self.toks):
            self.k += 1
        return t

    # feeding
    def token(self, tok, check):
        rest, self.rest = self.rest, None
        if rest is not None and check and tok != "\n":
            while len(rest) < len(tok) and self.k < len(self.toks):
                rest += self.take()
            exp = rest
        else:
            if rest is not None:
                self.d = True
            exp = self.take()
        self.checked = check
        if self.has and check and exp != tok:
            if exp is not None and exp.startswith(tok):
                self.rest = exp[len(tok):]
            else:
                self.d = True
        if tok == "\n":
            self.commit()
        else:
            self.cur += tok
            if self.pattern is not None:
                self.pattern += re.escape(tok)

    def feed(self, text, check):
        for tok in tokenize(norm(str(text))):
            self.token(tok, check)

    def wild(self, pattern):
        """ignored text that the model cannot know; only used before the end of a line"""
        if self.pattern is None:
            self.pattern = re.escape(self.cur)
        self.pattern += pattern
        self.cur += "<?>"
        self.checked = False
        if self.rest is not None:
            self.d, self.rest = True, None

    def commit(self):
        mark = " "
        if self.d:
            self.diffs += 1
            mark = "?"
        if self.f:
            self.fails += 1
            mark = "!"
        text = self.cur if self.pattern is None else re.compile(self.pattern, re.S)
        self.lines.append(Line(text, mark, self.line(), self.loose))
        self.d = self.f = False
        self.loose = False
        self.cur, self.pattern = "", None
        if self.at < len(self.exp):
            self.at += 1
        self.load()

    def seek(self, ok):
        n = len(self.exp)
        for i in list(range(self.at, n)) + list(range(0, self.at)):
            if ok(self.exp[i]):
                if i != self.at:
                    self.goto(i)
                return
        # not found: the position stays, the line is compared from its start
        self.goto(self.at)

    # operations
    def run(self, prog):
        for op in prog:
            getattr(self, "op_" + op[0])(*op[1:])
            if op[0] == "raise":
                break
        self.end()
        return self

    def op_t(self, s): self.feed(s, True)
    def op_i(self, s): self.feed(s, False)
    def op_tln(self, s=""): self.feed(s, True); self.token("\n", True)
    def op_iln(self, s=""): self.feed(s, False); self.token("\n", False)
    def op_fail(self): self.f = True
    def op_diff(self): self.d = True

    def op_header(self, s):
        if self.lines or self.cur:
            self.token("\n", self.checked and self.line() is not None)
        self.op_anchorln(s)
        self.op_tln("")

    def op_h(self, level, s): self.op_header("#" * level + " " + s)

    def op_anchorln(self, s):
        self.seek(lambda x: x == s)
        self.op_tln(s)

    def op_anchor(self, s):
        self.seek(lambda x: x.startswith(s))
        self.op_t(s)

    def op_kv(self, k, v):
        self.op_anchor(k)
        self.op_tln(f" {v}")

    def op_tlist(self, items, prefix):
        for i in items:
            self.op_tln(f"{prefix}{i}")

    def op_tset(self, items, prefix):
        comp, end = None, self.at
        if self.has:
            comp = []          # different items may look alike
            while end < len(self.exp) and self.exp[end].startswith(prefix):
                comp.append(self.exp[end][len(prefix):])
                end += 1
            if end > self.at:
                self.goto(end)
        for i in items:
            s = str(i)
            if comp is not None:
                if s in comp:
                    comp.remove(s)
                else:
                    self.d = True
            mark_at = len(self.lines)
            self.op_iln(f"{prefix}{s}")
            for ln in self.lines[mark_at:]:
                ln.exp = ANY       # which snapshot line is shown is not specified
        if comp is not None:
            if comp:
                # missing items make the case differ; where that shows is not specified
                self.d = True
                self.loose = True
                self.tail_open = True
            if self.at != end:
                self.goto(end)

    def op_ttable(self, cols, rows):
        cells = [[str(r[c]) for c in range(len(cols))] for r in rows]
        pads = [max([len(cols[c])] + [len(r[c]) for r in cells]) for c in range(len(cols))]
        self.op_iln("|" + "".join(cols[c].ljust(pads[c]) + "|" for c in range(len(cols))))
        self.op_tln("|" + "".join("-" * p + "|" for p in pads))
        for r in cells:
            self.op_t("|")
            for c in range(len(cols)):
                s = r[c].replace("\r", " ").replace("\n", " ").strip()
                self.op_t(s)
                self.op_i(" " * (pads[c] - len(s)))
                self.op_t("|")
            self.op_tln()

    def op_tdf(self, cols, rows, index):
        self.op_ttable([str(c) for c in cols], rows)

    def op_tformat(self, v):
        self.op_tln(json.dumps(fmt(v), indent=2))

    def op_assertln(self, ok, msg):
        if ok:
            self.op_iln("ok")
        else:
            self.f = True
            self.op_iln(msg or "FAILED")

    def must(self, title, ok, msg=None):
        self.op_i(f" * MUST {title}...")
        self.op_assertln(ok, msg)

    def op_it(self, name, value, musts):
        self.op_h(2, name + "..")
        self.musts(name, value, musts)

    def musts(self, name, value, musts):
        for m in musts:
            if m[0] == "contain":
                self.must(f"have {m[1]}", m[1] in value)
            elif m[0] == "equal":
                self.must(f"equal {m[1]}", value == m[1])
            elif m[0] == "be":
                typ = TYPES[m[1]]
                self.must(f"be a {typ}", type(value) == typ, f"was {type(value)}")
            elif m[0] == "apply":
                self.must(m[1], m[2])
            elif m[0] == "member":
                # a member's assertions follow under their own header
                sub = value[m[1]]
                self.op_h(2, f"{name}.{m[1]}..")
                self.musts(f"{name}.{m[1]}", sub, m[2])

    def op_ifloatln(self, v, unit):
        old = self.head()
        try:
            old = float(old) if old is not None else None
        except ValueError:
            old = None
        post = f" {unit}" if unit is not None else ""
        self.op_i(f"{v:.3f}{post}")
        self.op_iln(f" (was {old:.3f}{post})" if old is not None else "")

    def op_imsln(self):
        old = self.head()
        try:
            old = float(old) if old is not None else None
        except ValueError:
            old = None
        was = re.escape(f" (was {old:.3f} ms)") if old is not None else ""
        self.wild(r"\d+\.\d\d\d ms" + was)
        self.token("\n", False)

    def op_tmsln_over(self):
        # the limit is negative, so it is always exceeded
        self.f = True
        self.wild(r"-?\d+\.\d\d ms > max -\d+\.\d\d ms! \(failed\)")
        self.commit_after_wild()

    def commit_after_wild(self):
        self.checked = True
        self.commit()

    def op_timage(self, name, alt):
        a = alt if alt is not None else os.path.splitext(name)[0]
        self.op_tln(f"![{a}]({rel(self.name)}/{name})")

    def op_raise(self, kind, msg):
        self.op_iln("")
        self.f = True
        if kind == "exit":
            self.op_iln(f"test raised exception {msg}:")
        else:
            self.op_iln(f"test raised exception {msg}:")
        self.traceback_from = len(self.lines)
        self.lines.append(Line(None, " ", None, True))      # "everything that follows"

    def end(self):
        if self.cur:
            self.token("\n", self.checked)
        else:
            if self.d:
                self.diffs += 1
                self.d = False
            if self.f:
                self.fails += 1
                self.f = False

    def result(self):
        if self.fails:
            return "FAIL"
        if self.diffs or not self.has:
            return "DIFF"
        return "OK"

    def marks(self):
        return [ln.mark for ln in self.lines]

    def text(self):
        return "".join(str(ln.text) + "\n" for ln in self.lines)

    def plain(self):
        return all(isinstance(ln.text, str) for ln in self.lines)


TYPES = {"int": int, "str": str, "list": list, "dict": dict, "float": float}


def fmt(v):
    if type(v) is list:
        return [fmt(x) for x in v]
    if type(v) is dict:
        return {k: fmt(x) for k, x in v.items()}
    return type(v).__name__


# ---------------------------------------------------------------- interpreter

def interpret(t, prog):
    for op in prog:
        k, a = op[0], op[1:]
        if k == "t": t.t(*a)
        elif k == "i": t.i(*a)
        elif k == "tln": t.tln(*a)
        elif k == "iln": t.iln(*a)
        elif k == "fail": t.fail()
        elif k == "diff": t.diff()
        elif k == "header": t.header(*a)
        elif k == "h":
            if a[0] <= 3:
                getattr(t, f"h{a[0]}")(a[1])
            else:
                t.h(*a)
        elif k == "anchor": t.anchor(*a)
        elif k == "anchorln": t.anchorln(*a)
        elif k == "kv": t.keyvalueln(*a)
        elif k == "tlist": t.tlist(a[0], a[1]) if a[1] != " * " else t.tlist(a[0])
        elif k == "tset": t.tset(a[0], a[1]) if a[1] != " * " else t.tset(a[0])
        elif k == "ttable": t.ttable({c: [r[n] for r in a[1]] for n, c in enumerate(a[0])})
        elif k == "tdf": t.tdf(frame(*a))
        elif k == "tformat": t.tformat(*a)
        elif k == "assertln": t.assertln(a[0], a[1]) if a[1] else t.assertln(a[0])
        elif k == "it":
            musts(t.it(a[0], a[1]), a[2])
        elif k == "ifloatln": t.ifloatln(a[0], a[1]) if a[1] is not None else t.ifloatln(a[0])
        elif k == "imsln": t.imsln(lambda: None)
        elif k == "tmsln_over": t.tmsln(lambda: None, -1.0)
        elif k == "timage":
            p = t.file(a[0])
            with open(p, "w") as f:
                f.write("img")
            t.timage(p, a[1]) if a[1] is not None else t.timage(p)
        elif k == "raise":
            raise {"exc": Exception, "value": ValueError, "exit": SystemExit, "assert": AssertionError,
                   "key": RuntimeError, "speechless": Speechless}[a[0]](a[1])
        else:
            raise AssertionError(k)


def frame(cols, rows, index):
    import pandas as pd
    n = len(rows)
    labels = {"repeated": [k % 2 for k in range(n)], "same": ["x"] * n, "text": [f"row {k}" for k in range(n)],
              "backwards": list(range(n))[::-1], "late": [k + 7 for k in range(n)]}
    return pd.DataFrame(rows, columns=cols, index=labels.get(index))


def musts(it, ms):
    for m in ms:
        if m[0] == "contain": it.must_contain(m[1])
        elif m[0] == "equal": it.must_equal(m[1])
        elif m[0] == "be": it.must_be_a(TYPES[m[1]])
        elif m[0] == "apply": it.must_apply(m[1], lambda x, ok=m[2]: ok)
        elif m[0] == "member":
            musts(it.member(m[1], lambda x, k=m[1]: x[k]), m[2])


# ---------------------------------------------------------------- running for real

class Obs:
    """what one real run showed"""


def make_test(prog, is_async=False, rv=None):
    if is_async:
        async def test(t):
            interpret(t, prog)
            return rv
    else:
        def test(t):
            interpret(t, prog)
            return rv
    return test


def run(root, name, prog, args, is_async=False, rv=None, stdin=""):
    o = run_cases(root, [[name, make_test(prog, is_async, rv)]], args + [name], stdin)
    o.result = result_of(root, name)
    o.out = read(os.path.join(root, ".out", name + ".md"))
    o.rep = read(os.path.join(root, ".out", name + ".txt"))
    o.snap = read(os.path.join(root, name + ".md"))
    return o


def run_cases(root, cases, args, stdin="", cache=None):
    import booktest as bt
    o = Obs()
    buf = io.StringIO()
    o.crash = None
    o.rv = None
    olderr = sys.stderr
    oldin = sys.stdin
    sys.stdin = io.StringIO(stdin)
    try:
        with cpu_guard(30), contextlib.redirect_stdout(buf):
            o.rv = bt.Tests(cases).exec(root, args, cache)
    except CpuExceeded:
        o.crash = "used over 30 s of CPU time without finishing"
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        o.crash = f"the run raised {type(e).__name__}: {e}"
    o.stderr_after = sys.stderr
    sys.stderr = olderr
    sys.stdin = oldin
    o.stdout = buf.getvalue()
    return o


def read(p):
    try:
        with open(p, "r", newline="") as f:
            return f.read()
    except FileNotFoundError:
        return None
    except UnicodeDecodeError:
        with open(p, "rb") as f:
            return repr(f.read())


def result_of(root, name):
    p = os.path.join(root, ".out", "cases.txt")
    rv = None
    for ln in (read(p) or "").split("\n"):
        parts = ln.split("\t")
        if parts[0] == name and len(parts) > 1:
            rv = parts[1]
    return rv


def put_snapshot(root, name, text):
    p = os.path.join(root, name + ".md")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="") as f:
        f.write(text)


def rel(name):
    return name.rsplit("/", 1)[-1]


# ---------------------------------------------------------------- comparing

def compare_text(model, text):
    """None, or why the written text is not what the model says"""
    if text is None:
        return "there is no output file"
    if not text.endswith("\n") and text != "":
        return f"the output does not end with a line end: {text[-80:]!r}"
    got = text.split("\n")[:-1]
    for n, ln in enumerate(model.lines):
        if ln.text is None:
            return None
        # a pattern or text is one line
        if n >= len(got):
            return f"line {n + 1} {ln.text!r} is missing from the output"
        if isinstance(ln.text, str):
            if got[n] != ln.text:
                return f"line {n + 1} of the output is {got[n]!r} instead of {ln.text!r}"
        elif not ln.text.fullmatch(got[n]):
            return f"line {n + 1} of the output is {got[n]!r} instead of one like {ln.text.pattern!r}"
    if len(got) != len(model.lines):
        return f"the output has extra lines {got[len(model.lines):][:3]!r}"
    return None


def compare_report(rows, model, marks_only=False):
    """None, or why the report lines do not show the written lines and marks"""
    for n, ln in enumerate(model.lines):
        if ln.text is None:
            return None
        if n >= len(rows):
            return f"line {n + 1} {ln.text!r} is missing from the report"
        row = rows[n]
        if not ln.loose and row[:1] != ln.mark:
            return (f"line {n + 1} {ln.text!r} is marked {row[:1]!r} instead of {ln.mark!r} in the report"
                    f" (snapshot line {ln.exp!r})")
        if row[:1] not in (" ", "?", "!"):
            return f"line {n + 1} has the mark {row[:1]!r}"
        if marks_only:
            continue
        body = row[2:]
        if row[:1] == " ":
            if isinstance(ln.text, str):
                if body != ln.text:
                    return f"line {n + 1} of the report is {row!r} instead of {ln.text!r}"
            elif not ln.text.fullmatch(body):
                return f"line {n + 1} of the report is {row!r}"
        elif not ln.loose:
            if isinstance(ln.text, str):
                if not body.startswith(ln.text):
                    return f"line {n + 1} of the report is {row!r}, the line is {ln.text!r}"
                tail = body[len(ln.text):]
                if ln.exp is ANY:
                    if not re.match(r" *\| ", tail):
                        return f"line {n + 1} of the report {row!r} shows no snapshot line"
                else:
                    exp = "EOF" if ln.exp is None else ln.exp
                    if not re.fullmatch(r" *\| " + re.escape(exp), tail):
                        return f"line {n + 1} of the report {row!r} does not show the snapshot line {exp!r}"
    if len(rows) != len(model.lines):
        return f"the report has extra lines {rows[len(model.lines):][:3]!r}"
    return None


def rows_of(rep):
    return (rep or "").split("\n")[:-1]
