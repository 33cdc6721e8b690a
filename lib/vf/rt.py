"""Imported by the generated test modules: what their test bodies do."""
import asyncio
import json
import logging
import os
import sys
import time
import zlib


class Val:
    def __init__(self, payload):
        self.payload = payload

    def __eq__(self, o):
        return isinstance(o, Val) and o.payload == self.payload

    def __hash__(self):
        return hash(self.payload)


class Unpicklable:
    def __reduce__(self):
        raise TypeError("this cannot be stored")


class Hopeless(Exception):
    """an exception that no other process can rebuild"""

    def __init__(self, a, b):
        Exception.__init__(self)
        self.lock = Unpicklable()


class Base(BaseException):
    pass


def make(spec):
    kind, x = spec
    if kind == "none":
        return None
    if kind in ("int", "str", "bool", "float", "list", "dict"):
        return x
    if kind == "tuple":
        return tuple(x)
    if kind == "set":
        return set(x)
    if kind == "bytes":
        return x.encode() * 3
    if kind == "obj":
        return Val(x)
    if kind == "big":
        return [x] * 20000
    if kind == "nested":
        return {"k": (Val(x), {x: None}), "n": [None, x]}
    raise ValueError(kind)


def canon(v):
    t = type(v).__name__
    if isinstance(v, Val):
        return f"Val({canon(v.payload)})"
    if isinstance(v, (set, frozenset)):
        return f"{t}({','.join(sorted(map(canon, v)))})"
    if isinstance(v, (list, tuple)):
        if len(v) > 1000:
            return f"{t}({len(v)}x{canon(v[0])},{len(set(map(repr, v)))})"
        return f"{t}({','.join(map(canon, v))})"
    if isinstance(v, dict):
        return f"{t}({','.join(canon(k) + '=' + canon(x) for k, x in v.items())})"
    return f"{t}:{v!r}"


def log(**kw):
    kw["pid"] = os.getpid()
    kw["t"] = time.monotonic_ns()
    fd = os.open(os.environ["VF_EV"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    try:
        os.write(fd, (json.dumps(kw) + "\n").encode())
    finally:
        os.close(fd)


def behave(key):
    with open(os.environ["VF_BEHAVE"]) as f:
        return json.load(f).get(key, {})


def held(root):
    """what this process holds: open files under root, threads, child processes, ..."""
    import gc
    import multiprocessing
    import signal
    import threading
    gc.collect()
    files = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            f = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if f.startswith(os.path.join(root, "")):
            files.append(os.path.relpath(f, root))
    return {"files": sorted(files), "threads": sorted(x.name for x in threading.enumerate()),
            "children": len(multiprocessing.active_children()), "sigint": str(signal.getsignal(signal.SIGINT)),
            "directory": os.getcwd(), "umask": umask()}


def umask():
    rv = os.umask(0o22)
    os.umask(rv)
    return oct(rv)


def listing(d):
    rv = []
    for base, dirs, files in os.walk(d):
        for x in dirs + files:
            rv.append(os.path.relpath(os.path.join(base, x), d))
    return sorted(rv)


def acts(t, key, deps):
    b = behave(key)
    log(ev="start", case=key, path=t.test_path, deps=[canon(d) for d in deps],
        dirs=[listing(t.out_dir_name), listing(t.out_tmp_dir_name)] if b.get("look") else None,
        env={k: os.environ.get(k) for k in b.get("env", [])},
        **({"held": held(b["held"])["files"]} if "held" in b else {}))
    try:
        for s in b.get("pre", []):
            yield s
        for name, text in b.get("files", {}).items():
            with open(t.file(name), "w", newline="") as f:
                f.write(text)
        for name, text in b.get("tmp", {}).items():
            with open(t.tmp_path(name), "w", newline="") as f:
                f.write(text)
        for name, text in b.get("tmpdirs", {}).items():
            with open(os.path.join(t.tmp_dir(name), "x"), "w") as f:
                f.write(text)
        for name, value in b.get("setenv", {}).items():
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value
        if "err" in b:
            print(b["err"], file=sys.stderr)
        if "log" in b:
            logging.getLogger("vf." + key).warning(b["log"])
        if "out" in b:
            print(b["out"])
        for x in b.get("noise", []):
            noise(*x)
            for s in b.get("mid", [])[:1]:
                yield s
        for n, x in enumerate(b.get("lines", [])):
            t.tln(x)
            if n == 0:
                if b.get("intr"):
                    # as a terminal does, a little later
                    import signal
                    import threading
                    def send():
                        log(ev="sent")
                        os.killpg(0, signal.SIGINT)
                    threading.Timer(0.7, send).start()
                for s in b.get("mid", []):
                    yield s
        for x in b.get("ignored", []):
            t.iln(x)
        if b.get("show"):
            for d in deps:
                t.tln(canon(d))
        for name, args, kwargs, spoil in b.get("calls", []):
            v = target(name)(*args, **kwargs)
            log(ev="got", case=key, f=name, value=v)
            if b.get("print_results"):
                t.tln(f"{name} gives {json.dumps(v)}")
            if spoil:
                # what the test does to its value is its own business
                ruin(v)
            for s in b.get("mid", []):
                yield s
        if b.get("http"):
            from vf import httpops
            yield from httpops.perform(t, key, b)
        if b.get("blocks"):
            from vf import blocks
            yield from blocks.perform(t, key, b)
        if b.get("conc"):
            from vf import conc
            yield from conc.perform(t, key, b)
        for name, text, postfix, alt in b.get("pics", []):
            file = t.file(name)
            with open(file, "w", newline="") as f:
                f.write(text)
            if postfix is not None:
                file = t.rename_file_to_hash(file, postfix)
            log(ev="file", case=key, file=file, exists=os.path.exists(file))
            t.timage(file, alt)
        if b.get("prog"):
            from vf import stream
            stream.interpret(t, b["prog"])
        for s in b.get("post", []):
            yield s
        end = b.get("end", "ok")
        if end == "fail":
            t.fail()
            t.iln("failed")
        elif end == "openfail":
            t.i("failed").fail()
        elif end == "assert":
            t.t("condition holds? ").assertln(False)
        elif end == "raise":
            raise error("the test raises", key + json.dumps(b, sort_keys=True))
        elif end == "exit":
            sys.exit(b.get("code", 3))
        elif end == "hopeless":
            raise Hopeless(1, 2)
        elif end == "die":
            os._exit(9)
        elif end == "base":
            raise Base()
        elif end == "cancel":
            raise asyncio.CancelledError()
    except (KeyboardInterrupt, GeneratorExit, asyncio.CancelledError):
        log(ev="cut", case=key)
        raise
    finally:
        log(ev="end", case=key)
    if end == "unstorable":
        return Unpicklable()
    return make(b["ret"]) if "ret" in b else None


def noise(kind, text):
    """ways to write to stderr and logs"""
    if kind == "err":
        print(text, file=sys.stderr)
    elif kind == "errw":
        sys.stderr.write(text)
    elif kind == "log":
        logging.getLogger("vf.some.logger").warning(text)
    elif kind == "root":
        logging.error("%s", text)
    elif kind == "info":
        logging.getLogger("vf").debug(text)
    elif kind == "add":
        logging.getLogger().addHandler(logging.NullHandler())
    elif kind == "clear":
        for h in list(logging.getLogger().handlers)[1:]:
            logging.getLogger().removeHandler(h)
    elif kind == "swap":
        import io
        sys.stderr = io.StringIO()
    elif kind == "thread":
        import threading
        th = threading.Thread(target=lambda: (print(text, file=sys.stderr), logging.warning(text)))
        th.start()
        th.join()
    elif kind == "basic":
        logging.basicConfig(format="[%(message)s]")


def ruin(v):
    if isinstance(v, list):
        for x in v:
            ruin(x)
        v.append("spoiled")
    elif isinstance(v, dict):
        for x in v.values():
            ruin(x)
        v["spoiled"] = True


def target(name):
    """the function a test means by the name, as it is now"""
    import importlib
    mod, *path = name.split(".")
    v = importlib.import_module("test." + mod)
    for x in path:
        v = getattr(v, x)
    return v


def real_call(name, args, kwargs):
    """what the functions under snapshot do"""
    log(ev="call", f=name, args=list(args), kwargs=kwargs)
    b = behave("functions")
    k = f"{name} {json.dumps([list(args), kwargs])}"
    if b.get("raise") == name:
        raise RuntimeError("the function raises")
    shape = (len(k) + b.get("version", 0)) % 5
    v = b.get("version", 0)
    return [v, f"{k} {v}", {"v": v, "k": [k]}, None, [k, {"n": v}]][shape]


def body(t, key, *deps):
    g = acts(t, key, deps)
    try:
        while True:
            s = next(g)
            if s:
                time.sleep(s)
    except StopIteration as e:
        return e.value


async def abody(t, key, *deps):
    g = acts(t, key, deps)
    try:
        s = next(g)
        while True:
            if callable(s):
                try:
                    got = await s()
                except BaseException as e:
                    s = g.throw(e)
                else:
                    s = g.send(got)
            else:
                await asyncio.sleep(s)
                s = next(g)
    except StopIteration as e:
        return e.value


def mark(ev, **kw):
    log(ev=ev, **kw)


ERRORS = [ValueError, OSError, KeyError, FileNotFoundError, TimeoutError, PermissionError, ConnectionResetError, AssertionError,
          NotImplementedError, ImportError, EOFError, MemoryError, RecursionError, AttributeError, TypeError, ZeroDivisionError,
          BrokenPipeError, IndexError, RuntimeError, SystemError, UserWarning, FileExistsError, asyncio.InvalidStateError]


def error(text, seed):
    """an error of some kind, always the same for the same seed"""
    return ERRORS[zlib.crc32(seed.encode()) % len(ERRORS)](text)


def bracket(who):
    """a setup_teardown generator that logs"""
    def generator():
        log(ev="setup", who=who)
        b = behave(who)
        if b.get("setup") == "empty":
            return
        if b.get("setup"):
            raise error("the setup fails", who + json.dumps(behave("process")) + str(b))
        yield
        log(ev="teardown", who=who)
        if b.get("teardown"):
            raise error("the teardown fails", who + json.dumps(behave("process")) + str(b))
    return generator
