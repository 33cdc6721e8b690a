"""Imported by the generated test modules: HTTP requests of a test body, logged with what it saw."""
import asyncio
import base64
import os
import ssl

from vf import rt

# building a context per client costs more than the request
PLAIN = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
NAMES = ["Content-Type", "X-Tag", "X-Mixed-Case", "Location", "X-Empty", "Set-Cookie", "X-Multi", "Transfer-Encoding", "Content-Length"]


def odd_case(name, n):
    return [name, name.lower(), name.upper(), name.swapcase()][n % 4]


def read(op, r, lib):
    """the content, in the way that the operation wants it"""
    how = op["read"]
    if how == "iter":
        parts = list(r.iter_content(7) if lib == "requests" else r.iter_bytes(7))
    elif how == "lines":
        return {"lines": [x.decode() if isinstance(x, bytes) else x for x in r.iter_lines()]}
    elif how == "raw":
        parts = [r.raw.read()] if lib == "requests" else list(r.iter_raw())
    elif how == "part":
        parts = [next(iter(r.iter_content(3) if lib == "requests" else r.iter_bytes(3)), b"")]
    else:
        return {}
    return {"body": base64.b64encode(b"".join(parts)).decode()}


async def aread(op, r):
    how = op["read"]
    parts = []
    if how == "lines":
        return {"lines": [x async for x in r.aiter_lines()]}
    if how == "none":
        return {}
    async for x in r.aiter_raw() if how == "raw" else r.aiter_bytes(3 if how == "part" else 7):
        parts.append(x)
        if how == "part":
            break
    return {"body": base64.b64encode(b"".join(parts)).decode()}


def seen(op, r, lib, got=None):
    rv = {
        "status": r.status_code,
        "url": str(r.url),
        "cookies": dict(r.cookies),
        "headers": {n: r.headers.get(odd_case(n, k + op.get("n", 0))) for k, n in enumerate(NAMES)},
        "history": [h.status_code for h in r.history],
    }
    if lib == "requests":
        rv["encoding"] = r.encoding
        rv["reason"] = r.reason
    else:
        rv["multi"] = r.headers.get_list("x-multi")
    if got is not None:
        rv.update(got)
    else:
        rv.update(body=base64.b64encode(r.content).decode(), text=r.text)
    if "/json/" in op["path"] and got is None:
        rv["json"] = r.json()
    try:
        r.raise_for_status()
        rv["good"] = True
    except Exception:
        rv["good"] = False
    return rv


def keywords(op, lib):
    kw = {"headers": op["headers"]} if op["headers"] else {}
    b = op.get("body")
    if b is not None:
        kind, x = b
        if kind == "json":
            kw["json"] = x
        elif kind == "form":
            kw["data"] = x
        elif kind == "bytes":
            kw["data" if lib == "requests" else "content"] = base64.b64decode(x)
        else:
            kw["data" if lib == "requests" else "content"] = x
    if op.get("digest"):
        if lib == "requests":
            from requests.auth import HTTPDigestAuth
            kw["auth"] = HTTPDigestAuth("user", "pass")
        else:
            import httpx
            kw["auth"] = httpx.DigestAuth("user", "pass")
    if op.get("timeout"):
        kw["timeout"] = op["timeout"]
    return kw


KEPT = {}


def own_session():
    """a session that selects its adapters by itself"""
    import requests

    class Own(requests.Session):
        asked = False

        def get_adapter(self, url):
            self.asked = True
            return super().get_adapter(url)

    return Own()


def kept(lib, follow=True):
    """a session of the module, which the tests share"""
    if (lib, follow) not in KEPT:
        if lib == "requests":
            KEPT[lib, follow] = own_session()
        else:
            import httpx
            KEPT[lib, follow] = httpx.Client(follow_redirects=follow, verify=PLAIN)
    return KEPT[lib, follow]


class Failed(Exception):
    pass


def sync_request(op, base):
    lib = op["lib"]
    url = base + op["path"]
    if lib == "requests":
        import requests
        try:
            if op.get("login"):
                with requests.Session() as s:
                    s.get(base + op["login"])
                    r = s.request(op["method"], url, **keywords(op, lib))
                    return dict(seen(op, r, lib), session_cookies=dict(s.cookies))
            got = None
            if op.get("kept"):
                s = kept(lib)
                s.asked = False
                r = s.request(op["method"], url, stream=op.get("stream", False), **keywords(op, lib))
                asked = s.asked
                if op.get("read"):
                    got = read(op, r, lib)
                    r.close()
                return dict(seen(op, r, lib, got), asked=asked)
            elif op.get("session"):
                with requests.Session() as s:
                    r = s.request(op["method"], url, stream=op.get("stream", False), **keywords(op, lib))
                    if op.get("read"):
                        got = read(op, r, lib)
                        r.close()
                    else:
                        r.content
            else:
                r = requests.request(op["method"], url, **keywords(op, lib))
            return seen(op, r, lib, got)
        except (requests.ConnectionError, requests.Timeout) as e:
            raise Failed() from e
    import httpx
    try:
        import contextlib
        own = httpx.Client(follow_redirects=op.get("follow", True), verify=PLAIN) if not op.get("kept") else \
            contextlib.nullcontext(kept(lib, op.get("follow", True)))
        with own as c:
            got = None
            if op.get("login"):
                c.get(base + op["login"])
                r = c.request(op["method"], url, **keywords(op, lib))
                return dict(seen(op, r, lib), session_cookies=dict(c.cookies))
            if op.get("stream"):
                with c.stream(op["method"], url, **keywords(op, lib)) as r:
                    if op.get("read"):
                        got = read(op, r, lib)
                    else:
                        r.read()
            else:
                r = c.request(op["method"], url, **keywords(op, lib))
            return seen(op, r, lib, got)
    except httpx.TransportError as e:
        raise Failed() from e


async def async_request(op, base):
    import httpx
    try:
        async with httpx.AsyncClient(follow_redirects=op.get("follow", True), verify=PLAIN) as c:
            if op.get("stream"):
                got = None
                async with c.stream(op["method"], base + op["path"], **keywords(op, "httpx")) as r:
                    if op.get("read"):
                        got = await aread(op, r)
                    else:
                        await r.aread()
                return seen(op, r, "httpx", got)
            r = await c.request(op["method"], base + op["path"], **keywords(op, "httpx"))
            return seen(op, r, "httpx")
    except httpx.TransportError as e:
        raise Failed() from e


def note(key, n, op, v):
    if isinstance(v, Failed):
        rt.log(ev="resp", case=key, n=n, failed=True)
    elif isinstance(v, BaseException):
        rt.log(ev="resp", case=key, n=n, refused=type(v).__name__, text=str(v))
        raise v
    else:
        rt.log(ev="resp", case=key, n=n, seen=v)


def perform(t, key, b):
    base = os.environ["VF_BASE"]
    for n, op in enumerate(b["http"]):
        if op["lib"] == "gather":
            async def together():
                return await asyncio.gather(*[async_request(o, base) for o in op["ops"]], return_exceptions=True)
            got = yield together
            bad = [v for v in got if isinstance(v, BaseException) and not isinstance(v, Failed)]
            for k, (o, v) in enumerate(zip(op["ops"], got)):
                if v not in bad:
                    note(key, [n, k], o, v)
            for v in bad[:1]:
                note(key, [n, -1], op, v)
            continue
        try:
            if op["lib"] == "ahttpx":
                async def one():
                    return await async_request(op, base)
                v = yield one
            else:
                v = sync_request(op, base)
        except BaseException as e:
            v = e
        note(key, [n], op, v)
        if b.get("print_results") and isinstance(v, dict):
            t.tln(f"{op['method']} {op['path']}: {v['status']}")
