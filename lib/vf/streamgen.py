"""Random programs of writing calls."""
from vf.stream import boundaries, norm

WORDS = ["alpha", "beta", "x1", "v", "Result", "accuracy", "a", "zz", "é", "straße", "日本", "Δx", "naïve", "word", "TRUE", "nan", "inf", "e5",
         "12", "3", "0", "007", "3.5", "0.250", "-7", "+2.25", "-0.001", "1e", "٣", "½", "²", "12abc", "abc12", "一"]
SEPS = [" ", "  ", "\t", ":", ",", ", ", "=", "|", "/", "(", ")", "[", "*", "-", "+", ".", "..", "_", "#", "\"", "'", "`", "%", "$", "&", ";", "\\", "<", "~", " - ", " * ", " | "]
ODD = ["\x00", "\x07", "\x0b", "\x0c", "\x1b[0m", "\x85", "\u2028", "\u200b", "\ufeff", "😀", "e\u0301", "\x7f", "\u00a0", "\ud7ff", "\ud800;", "\udcff;"]


def word(rng):
    if rng.random() < 0.3:
        return "".join(rng.choice("abcdexyz0123456789") for _ in range(rng.randint(1, 7)))
    if rng.random() < 0.12:
        return rng.choice(ODD)
    return rng.choice(WORDS)


def text(rng, n=None, odd=True):
    n = rng.choice([1, 1, 2, 3, 5]) if n is None else n
    rv = ""
    for i in range(n):
        w = word(rng)
        while not odd and w in ODD:
            w = word(rng)
        rv += w
        if i < n - 1 or rng.random() < 0.2:
            rv += rng.choice(SEPS)
    return rv


def chop(rng, s):
    """s in one or several pieces"""
    if not s or rng.random() < 0.5:
        return [s]
    cuts = sorted(rng.randint(0, len(s)) for _ in range(rng.randint(1, 3)))
    rv, at = [], 0
    for c in cuts + [len(s)]:
        rv.append(s[at:c])
        at = c
    return rv


def mixed_line(rng, pieces=None, odd=True):
    """[(tested?, text)] such that ignored text never shares a token with its neighbours"""
    n = rng.randint(1, 4) if pieces is None else pieces
    ps = []
    for _ in range(n):
        ps.append((rng.random() < 0.65, text(rng, rng.choice([1, 1, 2, 3]), odd)))
    return separate(ps)


def separate(ps):
    rv = []
    for chk, s in ps:
        if rv and not (rv[-1][0] and chk):
            whole = "".join(x[1] for x in rv)
            if len(whole) not in boundaries(whole + s):
                rv.append((True, ":"))
                whole += ":"
                if len(whole) not in boundaries(whole + s):
                    rv.append((True, ";"))
        rv.append((chk, s))
    # a later piece may still have joined with an earlier one
    whole = "".join(x[1] for x in rv)
    bs = boundaries(whole)
    at = 0
    for k, (chk, s) in enumerate(rv):
        if k and not (chk and rv[k - 1][0]) and at not in bs:
            return [(True, whole)]
        at += len(s)
    return rv


def ops_of_line(rng, ps, split=True, end=None):
    rv = []
    for chk, s in ps:
        if chk and split:
            rv.extend(["t", x] for x in chop(rng, s))
        else:
            rv.append(["t" if chk else "i", s])
    end = rng.choice(["tln", "tln", "tln", "iln", "t\n", "merge"]) if end is None else end
    if end == "tln":
        rv.append(["tln"])
    elif end == "iln":
        rv.append(["iln"])
    elif end == "t\n":
        rv.append(["t", "\n"])
    elif end == "merge":
        if rv and rv[-1][0] == "t":
            rv[-1] = ["tln", rv[-1][1]]
        elif rv and rv[-1][0] == "i":
            rv[-1] = ["iln", rv[-1][1]]
        else:
            rv.append(["tln"])
    return rv


def title(rng):
    return text(rng, rng.choice([1, 1, 2, 3]), odd=rng.random() < 0.1)


def items(rng, n=None, lo=0, alike=0.0):
    n = rng.randint(lo, 6) if n is None else n
    rv = []
    while len(rv) < n:
        s = text(rng, rng.choice([0, 1, 1, 2, 3]))
        s = norm(s).replace("\n", " ")
        if s not in rv or rng.random() < alike:
            rv.append(s)
        elif rng.random() < alike:
            rv.append(rng.choice(rv))
    if rv and rng.random() < alike:
        rv[rng.randrange(len(rv))] = rng.choice(rv)
    return rv


def frame(rng):
    """a dataframe of any labels"""
    cols, rows = table(rng)
    k = rng.random()
    if k < 0.3:
        cols = [n + rng.randint(0, 1) for n in range(len(cols))]
    elif k < 0.5:
        cols = [rng.choice(cols) for _ in cols]
    return ["tdf", cols, rows, rng.choice(["", "repeated", "same", "text", "backwards", "late"])]


def table(rng):
    nc, nr = rng.randint(1, 4), rng.randint(0, 4)
    cols = []
    while len(cols) < nc:
        c = text(rng, 1, odd=False)
        if c not in cols:
            cols.append(c)
    kinds = [rng.choice("siifb") for _ in cols]
    rows = []
    for _ in range(nr):
        r = []
        for k in kinds:
            if k == "s":
                s = text(rng, rng.choice([0, 1, 2, 3]))
                if rng.random() < 0.1:
                    s += rng.choice(["\n", "\n", "\r", "\r\n"]) + word(rng)
                if rng.random() < 0.3:
                    s = rng.choice(["", " ", "\t", "\u00a0"]) + s + rng.choice(["", "  ", "\t", "\t ", "\u00a0", "\r"])
                r.append(s)
            elif k == "i":
                r.append(rng.randint(-1000, 1000))
            elif k == "f":
                r.append(rng.randint(-4000, 4000) / 8)
            else:
                r.append(rng.random() < 0.5)
        rows.append(r)
    return [cols, rows]


def jsonish(rng, depth=0):
    k = rng.random()
    if depth < 3 and k < 0.3:
        return {text(rng, 1, odd=False): jsonish(rng, depth + 1) for _ in range(rng.randint(0, 3))}
    if depth < 3 and k < 0.5:
        return [jsonish(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([1, 2.5, "s", True, None, 0])


def it_musts(rng, value, ok=True, depth=0):
    ms = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["contain", "equal", "be", "apply", "member"])
        good = ok or rng.random() < 0.5
        if k == "contain" and isinstance(value, (list, dict)):
            if value:
                ms.append(["contain", rng.choice(list(value)) if good else "nothing-like-it"])
        elif k == "equal":
            ms.append(["equal", value if good else "something else"])
        elif k == "be":
            ms.append(["be", type(value).__name__ if good else ("int" if not isinstance(value, int) else "str")])
        elif k == "apply":
            ms.append(["apply", text(rng, 1, odd=False), good])
        elif k == "member" and isinstance(value, dict) and value and depth < 1:
            key = rng.choice(list(value))
            ms.append(["member", key, it_musts(rng, value[key], ok, depth + 1)])
            break
    return ms or [["apply", "hold", ok]]


def it_op(rng, ok=True):
    value = rng.choice([[1, 2, 3], {"k": 1, "m": "s"}, "text", 5, ["a", "b"], {"d": {"x": 1}}])
    return ["it", text(rng, 1, odd=False), value, it_musts(rng, value, ok)]


def block(rng, opts=()):
    """ops that start and end at a line start"""
    k = rng.random()
    odd = "noodd" not in opts
    if k < 0.42:
        return ops_of_line(rng, mixed_line(rng, odd=odd))
    if k < 0.47:
        return [["tln", ""]]
    if k < 0.52:
        # several lines in one call
        s = "\n".join(text(rng) for _ in range(rng.randint(2, 4)))
        if "nocr" not in opts and rng.random() < 0.3:
            s = s.replace("\n", rng.choice(["\r\n", "\r"]))
        return [["tln", s]] if rng.random() < 0.7 else [["iln", s]]
    if k < 0.60:
        return [["h", rng.randint(1, 4), title(rng)]]
    if k < 0.63:
        return [[rng.choice(["header", "anchorln"]), norm(title(rng)).replace("\n", "") or "x"]]
    if k < 0.67:
        return [["kv", text(rng, 1, odd=False) + rng.choice(["", ":", " ="]), text(rng, 2)]]
    if k < 0.70:
        return [["anchor", text(rng, 1, odd=False) + ":"]] + ops_of_line(rng, mixed_line(rng, odd=odd), end="tln")
    if k < 0.75:
        return [["tlist", items(rng), rng.choice([" * ", "- ", "1. ", ""])]]
    if k < 0.81:
        p = rng.choice([" * ", " * ", "- ", "+ ", "* "])
        return [["tset", items(rng, alike=0.2), p], rng.choice([["tln", ""], ["h", 2, title(rng)], ["tln", "end of set"]])]
    if k < 0.86 and "notable" not in opts:
        return [["ttable"] + table(rng) if rng.random() < 0.6 else frame(rng)]
    if k < 0.88:
        return [["tformat", jsonish(rng)]]
    if k < 0.91:
        return [["t", text(rng, 2) + "? "], ["assertln", True, None]]
    if k < 0.94:
        return [it_op(rng)]
    if k < 0.97:
        return [["t", text(rng, 1, odd=False) + "="], ["ifloatln", rng.randint(-9999, 9999) / 64, rng.choice([None, "ms", "%"])]]
    if k < 0.985 and "noims" not in opts:
        return [["t", text(rng, 1, odd=False) + ": "], ["imsln"]]
    return [["timage", text(rng, 1, odd=False).strip("./ ").replace("/", "") + "i.png", rng.choice([None, "alt text"])]]


def program(rng, n=None, opts=()):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14]) if n is None else n
    rv = []
    for _ in range(n):
        rv.extend(block(rng, opts))
    if "noopen" not in opts and rng.random() < 0.25:
        ps = mixed_line(rng)
        rv.extend(ops_of_line(rng, ps, end="none"))
    return rv


NAMES = ["x", "case", "book/x", "test/deep/er/case", "a b", "quo'te", "ünï", "x.y", "$HOME", "book/-x", "semi;colon", "star*"]


def name(rng):
    return rng.choice(NAMES[:4]) if rng.random() < 0.7 else rng.choice(NAMES)
