"""Imported by the generated test modules: the requests and calls that a test makes from several threads or tasks at once."""
import asyncio
import os
import random
import sys
import threading
import time
import zlib

from vf import httpops
from vf import rt

TOOL = 3
FILES = ("file", "tmp_path", "tmp_dir", "tmp_file")


class Perturb:
    """random delays at the lines of the snapshot mechanisms, and the order in which the threads come by"""

    def __init__(self, p, seed):
        import booktest
        self.base = os.path.dirname(os.path.abspath(booktest.__file__)) + os.sep
        self.p, self.rng, self.n, self.crc = p, random.Random(seed), 0, 0
        self.threads = set()

    def line(self, code, n):
        if os.path.dirname(code.co_filename) + os.sep != self.base or \
                os.path.basename(code.co_filename) not in ("requests.py", "httpx.py", "functions.py") and code.co_name not in FILES:
            return sys.monitoring.DISABLE
        who = threading.current_thread().name
        self.n += 1
        self.threads.add(who)
        self.crc = zlib.crc32(f"{who} {n}".encode(), self.crc)
        if self.rng.random() < self.p:
            time.sleep(self.rng.choice([0, 0, 0.0005, 0.002]))

    def __enter__(self):
        m = sys.monitoring
        self.interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        m.use_tool_id(TOOL, "perturb")
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
        m.restart_events()
        sys.setswitchinterval(self.interval)


class Shared:
    """what the threads of a test may share"""

    def __init__(self, t):
        import httpx
        import requests
        self.t = t
        self.session = requests.Session()
        self.client = httpx.Client(verify=httpops.PLAIN)

    def close(self):
        self.session.close()
        self.client.close()


def one(op, base, shared):
    if op["lib"] == "file":
        p = getattr(shared.t, op["how"])(op["name"])
        q = os.path.join(p, "x") if op["how"] == "tmp_dir" else p
        with open(q, "x") as f:
            f.write(op["name"])
        return os.path.abspath(p)
    if op["lib"] == "func":
        return rt.target(op["f"])(*op["args"])
    if op.get("shared"):
        x = shared.session if op["lib"] == "requests" else shared.client
        return httpops.seen(op, x.request(op["method"], base + op["path"], **httpops.keywords(op, op["lib"])), op["lib"])
    return httpops.sync_request(op, base)


def note(key, n, k, op, v):
    if isinstance(v, BaseException):
        rt.log(ev="resp", case=key, n=[n, k], refused=type(v).__name__, text=str(v)[:500])
    else:
        rt.log(ev="resp", case=key, n=[n, k], seen=v)


def perform(t, key, b):
    c = b["conc"]
    base = os.environ["VF_BASE"]
    got, errors = [], []
    shared = Shared(t)

    def add(n, k, op, v):
        note(key, n, k, op, v)
        if isinstance(v, BaseException):
            errors.append(v)
        else:
            if op["lib"] != "file":
                got.append(f"{op['lib']} {op.get('method', op.get('f'))} {op.get('path', op.get('args'))}: {v if op['lib'] == 'func' else v['text']!r}")

    def thread(n, gate=None):
        if gate is not None:
            gate.wait(60)
        for k, op in enumerate(c["threads"][n]):
            try:
                v = one(op, base, shared)
            except Exception as e:
                v = e
            add(n, k, op, v)

    async def task(n):
        for k, op in enumerate(c["threads"][n]):
            try:
                if op["lib"] == "ahttpx":
                    v = await httpops.async_request(op, base)
                else:
                    v = await asyncio.to_thread(one, op, base, shared)
            except Exception as e:
                v = e
            add(n, k, op, v)

    async def tasks():
        await asyncio.gather(*[task(n) for n in range(len(c["threads"]))])

    with Perturb(c["p"], c["seed"]) as pert:
        if c["mode"] == "tasks":
            yield tasks
        else:
            gate = threading.Barrier(len(c["threads"]))
            ts = [threading.Thread(target=thread, args=(n, gate), name=f"w{n}", daemon=True) for n in range(len(c["threads"]))]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
    shared.close()
    rt.log(ev="perturbed", n=pert.n, threads=len(pert.threads), crc=pert.crc)
    for x in sorted(got):
        t.tln(x)
    if errors:
        raise errors[0]
