"""Imported by the generated test modules: snapshot and mock blocks within a test body."""
import os

from vf import httpops
from vf import rt


NAMES = ["VF_A", "VF_B", "VF_C"]


class Boom(Exception):
    pass


def make(t, c, made):
    import importlib
    from booktest import env, functions, httpx, requests
    real = importlib.import_module("test.fxr").REAL
    fxa = importlib.import_module("test.fxa")
    kind, arg = c[:2]
    if kind == "mock_env":
        return env.MockEnv(arg)
    if kind == "mock_missing_env":
        return env.MockMissingEnv(t, arg)
    if kind == "snapshot_env":
        return env.SnapshotEnv(t, arg)
    if kind == "mock_functions":
        return functions.MockFunctions({real[f]: getattr(fxa, m) for f, m in arg.items()})
    if kind == "snapshot_functions":
        return functions.SnapshotFunctions(t, [real[f] for f in arg])
    if kind == "requests":
        return requests.SnapshotRequests(t)
    return httpx.SnapshotHttpx(t)


def perform(t, key, b):
    import importlib
    real = importlib.import_module("test.fxr").REAL
    base = os.environ["VF_BASE"]
    count = [0]
    made = {}

    def obs(value):
        rt.log(ev="obs", n=count[0], case=key, v=value)
        count[0] += 1
        t.tln(f"{count[0]}: {value}")

    def run(nodes, snapshots):
        for node in nodes:
            kind = node[0]
            if kind == "env":
                obs({n: os.environ.get(n) for n in node[1]})
            elif kind == "setenv":
                if node[2] is None:
                    os.environ.pop(node[1], None)
                else:
                    os.environ[node[1]] = node[2]
            elif kind == "call":
                obs(rt.target(node[1])(*node[2]))
            elif kind == "explicit":
                obs(snapshots[-1].snapshot(real[node[1]], *node[2]))
            elif kind == "http":
                op = node[1]
                if op["lib"] == "ahttpx":
                    async def one():
                        return await httpops.async_request(op, base)
                    v = yield one
                else:
                    v = httpops.sync_request(op, base)
                obs(v["headers"]["X-Tag"])
            elif kind == "sleep":
                yield node[1]
            elif kind == "raise":
                raise Boom("boom")
            else:
                c = node[1]
                try:
                    if len(c) > 2:
                        # one object for several blocks
                        if c[2] not in made:
                            made[c[2]] = make(t, c, made)
                        x = made[c[2]]
                    else:
                        x = make(t, c, made)
                    with x:
                        yield from run(node[2], snapshots + [x] if c[0] == "snapshot_functions" else snapshots)
                except Exception as e:
                    if not node[3]:
                        raise
                    obs("caught " + ("Boom" if isinstance(e, Boom) else "missing" if "missing" in str(e) else repr(e)))

    env = {n: os.environ.get(n) for n in NAMES}
    try:
        yield from run(b["blocks"], [])
    finally:
        # what the body itself set, stays in it
        for n, v in env.items():
            if v is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = v
