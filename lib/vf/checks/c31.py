"""In-memory caches against a list of entries ordered by use."""
import random
import weakref

PLAN = {"quick": {"cases": 6000, "seconds": 25}, "thorough": {"cases": 2000000, "seconds": 900}}


class Model:
    """entries from the least to the most recently used"""

    def __init__(self, size):
        self.size = size
        self.entries = []

    def find(self, key):
        for n, (k, _) in enumerate(self.entries):
            if k == key:
                return n
        return None

    def set(self, key, value):
        if key is None:
            return
        n = self.find(key)
        if n is not None:
            key = self.entries.pop(n)[0]
        self.entries.append((key, value))
        while len(self.entries) > self.size:
            self.entries.pop(0)

    def get(self, key):
        n = self.find(key)
        if n is None:
            return None
        self.entries.append(self.entries.pop(n))
        return self.entries[-1][1]


class Key:
    """equal to others of its number, with many hash collisions"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Key) and o.n == self.n

    def __hash__(self):
        return self.n % 2

    def __repr__(self):
        return f"Key({self.n})"


class Value:
    def __eq__(self, o):
        raise AssertionError("values are not to be compared")

    def __bool__(self):
        raise AssertionError("values are not to be judged")


def case(ctx, rng, i):
    from booktest.cache import LruCache, NoCache
    size = rng.choice([0, 1, 1, 2, 3, 4, 8, 8, 30])
    pool = [rng.choice([f"k{n}", n, n + 0.0, (n, "x"), Key(n), ""]) for n in range(rng.choice([1, 2, size + 1, 2 * size + 2, 50]))]
    caches = [(LruCache(size), Model(size))]
    if rng.random() < 0.2:
        caches.append((LruCache(size + 1), Model(size + 1)))     # two do not share
    no = NoCache()
    ops = []
    refs = []
    for step in range(rng.choice([5, 20, 60, 200])):
        c, m = rng.choice(caches)
        key = rng.choice(pool)
        if isinstance(key, Key):
            key = Key(key.n)
        op = rng.choice(["set", "set", "get", "get", "in", "len", "none", "falsy", "no"])
        ops.append((op, key))
        ctx.count("operations")

        def bad(why):
            ctx.violation(f"{why} (size {size}, after {ops[-12:]})", ops=ops, size=size)

        if op in ("set", "falsy"):
            v = Value() if op == "set" else rng.choice([0, "", False, [], None])
            known = len(m.entries)
            c[key] = v
            m.set(key, v)
            if op == "set":
                refs.append((weakref.ref(v), m, step))
            ctx.count("evictions", known == len(m.entries) == m.size)
            del v
        elif op == "get":
            want = m.get(key)
            got = c[key]
            ctx.count("hits" if m.find(key) is not None else "misses")
            if got is not want:
                return bad(f"the lookup of {key!r} gives {got!r} instead of {want!r}")
            got = want = None
        elif op == "in":
            want = m.find(key) is not None
            if (key in c) != want:
                return bad(f"{key!r} is contained: {not want}")
        elif op == "none" and rng.random() < 0.1:
            c[None] = Value()
            if None in c or c[None] is not None:
                return bad("a value is found under the key None")
        elif op == "no":
            no[key] = Value()
            if len(no) != 0 or key in no or no[key] is not None:
                return bad("NoCache holds something")
        if len(c) != len(m.entries):
            return bad(f"it holds {len(c)} entries instead of {len(m.entries)}")
    for c, m in caches:
        held = {id(v) for _, v in m.entries}
        for ref, mm, step in refs:
            if mm is m and ref() is not None and id(ref()) not in held:
                return ctx.violation(f"a value that was replaced or evicted is still held (size {size})", ops=ops)
        ctx.count("released_values", sum(ref() is None for ref, mm, _ in refs if mm is m))
        for k, v in list(m.entries):
            if k not in c:
                return ctx.violation(f"{k!r} was dropped (size {size}), although it is one of the last used", ops=ops, size=size)
            if c[k] is not v:
                return ctx.violation(f"{k!r} gives another value than the last stored (size {size})", ops=ops, size=size)
            ctx.count("final_entries")
    ctx.nontrivial([size, ops])
    ctx.sample({"case": i, "size": size, "ops": [(a, repr(b)) for a, b in ops[:20]]})
