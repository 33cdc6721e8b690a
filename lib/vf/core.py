"""Shard side helpers: seeded cases, counters, verdict records, guards."""
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback


class CpuExceeded(BaseException):
    """A case used far more CPU time than any case needs."""


class Inconclusive(Exception):
    """The monitor cannot decide this case (harness side trouble)."""


class StopShard(Exception):
    pass


def digest(o):
    return hashlib.sha1(json.dumps(o, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")).hexdigest()[:16]


class Ctx:
    def __init__(self, prop, tier, seed, shard, shards, scratch):
        self.prop, self.tier, self.seed, self.shard, self.shards = prop, tier, seed, shard, shards
        self.scratch = scratch
        self.work = os.path.join(scratch, "work", f"s{shard}")
        os.makedirs(self.work, exist_ok=True)
        self.counters = {}
        self.sets = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.errors = []
        self.findings = []
        self.case = None
        self.evaluations = 0
        self._dirn = 0

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, *what):
        return random.Random(f"{self.seed}/{self.prop}/" + "/".join(map(str, what)))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def distinct(self, name, obj):
        self.sets.setdefault(name, set()).add(digest(obj))

    def nontrivial(self, obj):
        self.distinct("_nontrivial", obj)

    def sample(self, obj, p=None):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def newdir(self):
        self._dirn += 1
        d = os.path.join(self.work, f"d{self._dirn}")
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def drop(self, d):
        # only what this harness created in its own scratch directory
        assert d.startswith(self.work + "/d"), d
        shutil.rmtree(d, ignore_errors=True)

    def violation(self, what, key=None, **detail):
        rec = {"what": what, "key": key, "case": self.case, "detail": detail}
        if key is not None:
            self.findings.append(rec)
        else:
            self.violations.append(rec)
            if len(self.violations) >= 3:
                raise StopShard()

    def unclear(self, what):
        self.inconclusive.append({"what": what, "case": self.case})

    def save(self, path, done):
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump({
                "done": done,
                "evaluations": self.evaluations,
                "counters": self.counters,
                "sets": {k: sorted(v) for k, v in self.sets.items()},
                "samples": self.samples,
                "violations": self.violations,
                "findings": self.findings,
                "inconclusive": self.inconclusive[:20],
                "inconclusive_count": len(self.inconclusive),
                "errors": self.errors[:5],
            }, f, default=repr)
        os.replace(tmp, path)


class cpu_guard:
    """raises CpuExceeded when the enclosed code burns the given CPU time (not wall time)"""

    def __init__(self, seconds=30):
        self.seconds = seconds

    def __enter__(self):
        def handler(_s, _f):
            raise CpuExceeded()
        self.old = signal.signal(signal.SIGPROF, handler)
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


def limit_memory():
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


def tree(root, skip=()):
    """{relative path: bytes (files) | None (dirs) | ('link', target)} of everything below root"""
    rv = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        rel = "" if rel == "." else rel + "/"
        keep = []
        for d in sorted(dirs):
            if rel + d in skip:
                continue
            p = os.path.join(base, d)
            if os.path.islink(p):
                rv[rel + d] = ("link", os.readlink(p))
                continue
            rv[rel + d] = None
            keep.append(d)
        dirs[:] = keep
        for f in sorted(files):
            if rel + f in skip:
                continue
            p = os.path.join(base, f)
            if os.path.islink(p):
                rv[rel + f] = ("link", os.readlink(p))
            else:
                try:
                    with open(p, "rb") as h:
                        rv[rel + f] = h.read()
                except OSError:
                    rv[rel + f] = ("unreadable",)
    return rv


def diff_trees(a, b):
    rv = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            rv.append(("+", k, short(b[k])))
        elif k not in b:
            rv.append(("-", k, short(a[k])))
        elif a[k] != b[k]:
            rv.append(("~", k, short(a[k]), short(b[k])))
    return rv


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
