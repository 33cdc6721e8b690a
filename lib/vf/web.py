"""
A local HTTP server with a hit log, tests that make requests through requests and
httpx under the snapshot decorators, and the model of capture and replay.
"""
import base64
import gzip
import hashlib
import http.client
import http.server
import json
import os
import re
import threading
import time

from vf import httpops
from vf import proj as P
from vf import projgen as G
from vf import rt

KINDS = ["text", "json", "bin", "latin", "gzip", "empty", "err", "redir", "hop", "hdr", "count", "utf", "big", "nul", "cookie", "chunk", "multi", "phrase"]
COOKIES = ["sid=%s; Path=/; Expires=Wed, 09 Jun 2100 10:18:14 GMT", "lang=en; Path=/", "x=\"a b\"; Path=/; HttpOnly"]


PHRASE = "Just Fine"


class State:
    """in the server process: what it answers and what it was asked"""
    version = 0
    hits = []
    counts = {}
    counting = True
    lock = threading.Lock()


def pairs(h):
    """a header that is repeated has a list of values"""
    return [(k, v) for k, x in h.items() for v in (x if isinstance(x, list) else [x])]


def answer(method, path, body, version, count, auth=False):
    """(status, headers, body) that the server gives"""
    kind = path.split("/")[1]
    tag = hashlib.sha1(f"{method} {path} {version} {count if kind == 'count' or path[:6] == '/slow/' and path[7:8] == 'c' else ''}".encode() + body).hexdigest()[:10]
    h = {"X-Tag": tag, "X-Mixed-Case": f"V {tag[:3]}, x; y=\"z\""}
    status, ct, out = 200, "text/plain; charset=utf-8", f"{kind} {tag}\n".encode()
    if kind == "json":
        ct, out = "application/json", json.dumps({"tag": tag, "x": [1, None, "ä"], "n": {"v": version}}).encode()
    elif kind == "bin":
        ct, out = "application/octet-stream", bytes(range(256)) + tag.encode()
    elif kind == "latin":
        ct, out = "text/plain; charset=iso-8859-1", ("äöÅ " + tag).encode("latin-1")
    elif kind == "utf":
        out = f"ä€😀 {tag} \u2028".encode()
    elif kind == "nul":
        ct, out = "text/html", ("\x00\r\n\x01 ä€ " + tag).encode()
    elif kind == "gzip":
        h["Content-Encoding"] = "gzip"
        out = gzip.compress((f"gzip {tag} " * 20).encode(), mtime=0)
    elif kind == "empty":
        status, out, ct = 204, b"", None
    elif kind == "err":
        status = [404, 500, 400, 503, 401][int(tag, 16) % 5]
    elif kind == "redir":
        status, out = [302, 301, 303][len(path) % 3], b""
        h["Location"] = "/text/" + path.split("/", 2)[2]
    elif kind == "hop":
        status, out = 307, b"hop"
        h["Location"] = "/redir/" + path.split("/", 2)[2]
    elif kind == "hdr":
        h["X-Empty"] = ""
        ct = None
    elif kind == "big":
        out = (tag * 5000).encode()
    elif kind == "cookie":
        h["Set-Cookie"] = [COOKIES[0] % tag] + COOKIES[1:1 + len(path) % 3]
    elif kind == "multi":
        h["X-Multi"] = [tag, "two", "three, four"]
    elif kind == "chunk":
        h["Transfer-Encoding"] = "chunked"
        out = (tag + "\n").encode() * 7
    elif kind == "digest" and not auth:
        status, out = 401, b"who?"
        h["WWW-Authenticate"] = f'Digest realm="r {tag[0]}", nonce="{tag}", qop="auth", algorithm=MD5'
    if ct:
        h["Content-Type"] = ct
    if status != 204 and kind != "chunk":
        h["Content-Length"] = str(len(out))
    return status, h, out


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def handle_any(self):
        n = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(n)
        if self.path == "/_hits":
            with State.lock:
                out = json.dumps(State.hits).encode()
                j = json.loads(body)
                State.hits, State.counts = [], {}
                State.version, State.counting = j["version"], j["counting"]
            self.send_response(200)
            self.end_headers()
            self.wfile.write(out)
            return
        with State.lock:
            k = (self.command, self.path)
            State.counts[k] = State.counts.get(k, 0) + 1
            count = State.counts[k]
            State.hits.append([self.command, self.path, base64.b64encode(body).decode()])
        if self.path.startswith("/drop/"):
            return
        status, h, out = answer(self.command, self.path, body, State.version, count if State.counting else 0,
                                (self.headers.get("Authorization") or "").startswith("Digest "))
        if self.path.startswith("/slow/"):
            time.sleep(int(h["X-Tag"][:2], 16) / 256 * 0.02)
        elif self.path.startswith("/veryslow/"):
            time.sleep(float(self.path.split("/")[2]))
        if "Transfer-Encoding" in h:
            self.protocol_version = "HTTP/1.1"
            h["Connection"] = "close"
            self.close_connection = True
            out = b"".join(b"%x\r\n%s\r\n" % (len(out[k:k + 9]), out[k:k + 9]) for k in range(0, len(out), 9)) + b"0\r\n\r\n"
        self.send_response(status, PHRASE if self.path.startswith("/phrase/") else None)
        for a, b in pairs(h):
            self.send_header(a, b)
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(out)

    do_GET = do_POST = do_PUT = do_DELETE = do_PATCH = do_HEAD = do_OPTIONS = handle_any

    def finish(self):
        try:
            super().finish()
        except (OSError, ValueError):
            pass


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 50

    def handle_error(self, request, client_address):
        pass


def serve():
    import httpx
    import requests
    assert httpx and requests
    s = Server(("127.0.0.1", 0), Handler)
    if os.fork() == 0:
        # its parent's end or the supervisor ends it
        try:
            from vf.supervisor import pdeathsig
            pdeathsig()
            s.serve_forever(poll_interval=5)
        finally:
            os._exit(0)
    port = s.server_address[1]
    s.socket.close()
    return f"http://127.0.0.1:{port}"


def hits(base, version, counting):
    """the requests since the last call; sets how the next ones are answered"""
    c = http.client.HTTPConnection(base[7:], timeout=20)
    try:
        c.request("POST", "/_hits", json.dumps({"version": version, "counting": counting}))
        return json.loads(c.getresponse().read())
    finally:
        c.close()


# ---------------------------------------------------------------- generation

HEADERS = ["X-Token", "Authorization", "X-Other", "x-lower"]

HEAD = '''
import re


def by_path(j):
    return j["method"] + " " + j["url"].split("?")[0].replace("/", "_")


def no_time(body, url, method):
    if isinstance(body, bytes):
        body = body.decode("latin-1")
    return re.sub("ts=[0-9]+", "ts", body)
'''


def config(rng):
    return {
        "lose_request_details": rng.choice([True, True, True, False]),
        "ignore_headers": rng.choice([True, True, True, False, ["x-token"], ["X-TOKEN", "authorization"], []]),
        "json_to_hash": rng.random() < 0.15,
        "encode_body": rng.random() < 0.15,
    }


def code(lib, c):
    kw = []
    if c["lose_request_details"] is not True:
        kw.append("lose_request_details=False")
    if c["ignore_headers"] is not True:
        kw.append(f"ignore_headers={c['ignore_headers']!r}")
    if c["json_to_hash"]:
        kw.append("json_to_hash=by_path")
    if c["encode_body"]:
        kw.append("encode_body=no_time")
    return f"bt.snapshot_{lib}({', '.join(kw)})"


def secret(rng):
    return f"SECRET{rng.randrange(10**8):08d}"


def body(rng):
    k = rng.choice(["json", "form", "str", "str", "bytes"])
    s = rng.choice(["SECRETbody", "SECRETbody", secret(rng)])
    if k == "json":
        return [k, rng.choice([{"password": s}, [1, s], s, {"a": {"b": [s, None]}}])]
    if k == "form":
        return [k, {"user": "u", "password": s}]
    if k == "bytes":
        return [k, base64.b64encode(b"\xff\x00" + s.encode()).decode()]
    return [k, rng.choice([s, s + f" ts={rng.randrange(1000)}", s + " ts=1", "SECRETbody ä"])]


def operation(rng, few, asy):
    lib = rng.choice(["requests", "httpx"] + (["ahttpx", "ahttpx", "gather"] if asy else []))
    if lib == "gather":
        return {"lib": lib, "path": "", "ops": [gathered(rng, few) for _ in range(rng.randint(2, 4))]}
    op = {"lib": lib, "path": rng.choice(few)}
    if rng.random() < 0.03:
        op["path"] = "/drop/x"
    kind = op["path"].split("/")[1]
    if kind in ("redir", "hop"):
        op["method"] = "GET"
    else:
        op["method"] = rng.choice(["GET"] * 6 + ["POST"] * 4 + ["PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"])
    if kind in ("json", "gzip") and op["method"] == "HEAD":
        op["method"] = "GET"
    op["headers"] = {h: rng.choice(["SECREThead", "SECREThead", secret(rng)]) for h in HEADERS if rng.random() < 0.25}
    if op["method"] in ("POST", "PUT", "PATCH"):
        op["body"] = body(rng) if rng.random() < 0.85 else None
    op["n"] = rng.randrange(4)
    if lib == "requests":
        op["session"] = rng.random() < 0.3
        op["stream"] = op["session"] and rng.random() < 0.3
    else:
        op["stream"] = rng.random() < 0.15 and kind not in ("redir", "hop")
        if rng.random() < 0.15:
            op["follow"] = False
    if lib != "ahttpx" and kind != "cookie" and rng.random() < 0.3:
        op["kept"] = True
    if op["stream"] and rng.random() < 0.8:
        # in which way the content is read
        op["read"] = rng.choice(["iter", "lines", "raw", "part", "none"])
        if op["read"] == "lines" and kind not in LINES or op["read"] == "raw" and kind == "gzip":
            op["read"] = "iter"
    return op


LINES = ["text", "count", "big", "chunk"]


def special(rng, lib, decos):
    """requests that depend on the responses of others, or that are given up"""
    op = {"lib": lib, "method": "GET", "path": f"/{rng.choice(['text', 'json', 'count', 'cookie'])}/{rng.choice('ab')}", "headers": {},
          "n": rng.randrange(4), "stream": False}
    cfg = dict(decos).get("httpx" if lib == "ahttpx" else lib)
    kind = rng.choice(["login", "digest", "late"])
    if kind == "digest":
        ign = cfg["ignore_headers"] if cfg and not cfg["json_to_hash"] else True
        if ign is not True and not (ign and "authorization" in ign):
            # a random header would be compared
            return None
        op.update(path=f"/digest/{rng.choice('ab')}", digest=True)
    elif kind == "late":
        op.update(path=f"/veryslow/0.3/{rng.choice('ab')}", timeout=0.04)
    elif lib == "ahttpx":
        return None
    else:
        op.update(login=f"/cookie/{rng.choice(['a', 'ab', 'abc'])}")
    return op


def gathered(rng, few):
    while True:
        op = operation(rng, few, False)
        few = paths(rng)
        if op["path"].split("/")[1] not in ("count", "redir", "hop", "drop"):
            op["lib"] = "ahttpx"
            op.pop("session", None)
            op.pop("kept", None)
            op["stream"] = False
            op.pop("read", None)
            return op


def paths(rng):
    rv = []
    for _ in range(rng.randint(1, 5)):
        p = f"/{rng.choice(KINDS)}/{rng.choice(['a', 'b', 'a/b', 'a%20b', 'ab', '%C3%A4'])}"
        if rng.random() < 0.35:
            p += "?" + rng.choice(["q=1", "q=2", "q=1&r=%C3%A4", "q", "token=x+y"])
        rv.append(p)
    return rv


def each(units):
    for u in units:
        for x in u["methods"] if u["kind"] == "class" else [u]:
            yield f"{u['cls']}.{x['m']}" if u["kind"] == "class" else u["fn"], x


# ---------------------------------------------------------------- model

def raw_body(op):
    b = op.get("body")
    if b is None:
        return b""
    kind, x = b
    if kind == "json":
        if op["lib"] == "requests":
            return json.dumps(x).encode()
        import httpx
        return httpx.Request("POST", "http://x/", json=x).read()
    if kind == "form":
        import urllib.parse
        return urllib.parse.urlencode(x).encode()
    if kind == "bytes":
        return base64.b64decode(x)
    return x.encode()


def same(cfg, lib, method, url, headers, data):
    """what makes two requests the same"""
    if cfg["json_to_hash"]:
        return json.dumps([method, url.split("?")[0]])
    ign = cfg["ignore_headers"]
    if ign is True:
        hs = None
    else:
        ign = {x.lower() for x in ign} if ign else set()
        hs = sorted((k.lower(), v) for k, v in headers.items() if k.lower() not in ign)
    x = data.decode("latin-1")
    if cfg["encode_body"]:
        # requests hands text bodies over as text, httpx as bytes
        x = re.sub("ts=[0-9]+", "ts", x)
    return json.dumps([method, url, hs, x])


class Refused(Exception):
    pass


class Dropped(Exception):
    pass


class Tracker:
    """one snapshot decorator of one test"""

    def __init__(self, lib, cfg, known, capture):
        self.lib, self.cfg, self.known, self.capture = lib, cfg, known, capture
        self.used = {}
        self.orders = {}


def resolve(trackers, counts, op, base, version, hits, r):
    """what the test sees of one operation"""
    if op.get("login"):
        # the session keeps the cookies
        first = dict(op, path=op["login"], login=None)
        cookies = resolve(trackers, counts, first, base, version, hits, r)["cookies"]
        op = dict(op, login=None, headers=dict(op["headers"], Cookie="; ".join(f"{k}={v}" for k, v in cookies.items())))
        rv = resolve(trackers, counts, op, base, version, hits, r)
        rv["session_cookies"] = dict(cookies, **rv["cookies"])
        return rv
    lib = "requests" if op["lib"] == "requests" else "httpx"
    tr = trackers.get(lib)
    method, path, data = op["method"], op["path"], raw_body(op)
    history = []
    headers = op["headers"]
    auth = False
    while True:
        url = base + path
        resp = None
        if tr is not None:
            k = same(tr.cfg, lib, method, url, headers, data)
            n = tr.orders.get(k, 0)
            resp = tr.known.get((k, n))
            if resp is not None:
                r.replayed += 1
            elif not tr.capture:
                r.missing = [method, url, n]
                raise Refused()
        if resp is None:
            hits.append([method, path, base64.b64encode(data).decode()])
            counts[(method, path)] = counts.get((method, path), 0) + 1
            if tr is not None:
                r.captured += 1
            if path.startswith("/drop/") or op.get("timeout"):
                raise Dropped()
            resp = answer(method, path, data, version, counts[(method, path)] if counts.get("") is None else 0, auth)
            if resp[1].get("Content-Encoding") == "gzip":
                resp = (resp[0], resp[1], gzip.decompress(resp[2]))
            if method == "HEAD":
                resp = (resp[0], resp[1], b"")
        if tr is not None:
            tr.orders[k] = n + 1
            tr.used[(k, n)] = resp
        loc = resp[1].get("Location")
        if loc and op.get("follow", True) and not (lib == "requests" and method == "HEAD"):
            history.append(resp[0])
            path = loc
            continue
        if op.get("digest") and resp[0] == 401 and not auth:
            history.append(resp[0])
            auth = True
            continue
        break
    status, h, out = resp
    want = {"status": status, "url": url, "body": base64.b64encode(out).decode(), "history": history,
            "headers": {n: ", ".join(v for k, v in pairs(h) if k == n) if n in h else None for n in httpops.NAMES},
            "good": status < 400 and (lib == "requests" or not 300 <= status),
            "cookies": {v.split("=")[0]: v.split("=", 1)[1].split(";")[0] for v in h.get("Set-Cookie", [])}}
    kind = path.split("/")[1]
    if lib == "requests":
        want["reason"] = PHRASE if kind == "phrase" else http.client.responses[status]
    elif kind == "multi":
        want["multi"] = h["X-Multi"]
    how = op.get("read")
    if how:
        r.streamed = getattr(r, "streamed", 0) + 1
        if how == "lines":
            want["lines"] = out.decode().splitlines()
        if how == "part":
            want["body"] = base64.b64encode(out[:3]).decode()
        if how in ("lines", "none"):
            del want["body"]
        return want
    if "/json/" in op["path"]:
        want["json"] = json.loads(out)
    if kind in ("text", "utf", "latin", "count", "big", "gzip"):
        want["text"] = out.decode("latin-1" if kind == "latin" else "utf-8")
    if lib == "requests":
        want["encoding"] = encoding_of(h.get("Content-Type"))
    return want


def encoding_of(content_type):
    """the encoding by the rules of requests"""
    if content_type is None:
        return None
    if "charset=" in content_type:
        return content_type.split("charset=")[1]
    return "ISO-8859-1" if content_type.startswith("text/") else "utf-8" if content_type == "application/json" else None


class Test:
    pass


def tag_of(headers):
    return {k.lower(): v for k, v in (headers.items() if isinstance(headers, dict) else headers)}.get("x-tag")


def model(c, b, decos, held, flags, missing_dep, base, version, counts):
    r = Test()
    r.hits, r.resp, r.missing = [], [], None
    r.replayed = r.captured = 0
    capture = "-s" in flags or "-S" in flags
    trackers = {}
    for lib, cfg in decos:
        known = {} if "-S" in flags else dict(held.get(c.name, (None, {}))[1].get(lib) or {})
        trackers[lib] = Tracker(lib, cfg, known, capture)
    r.ran = not missing_dep
    ok = r.ran
    r.lines = list(b["lines"]) if ok else []
    r.loose = False
    for n, op in enumerate(b["http"] if ok else ()):
        if op["lib"] == "gather":
            r.loose = True
            got = []
            refused = False
            for k, o in enumerate(op["ops"]):
                try:
                    got.append(([n, k], resolve(trackers, counts, o, base, version, r.hits, r)))
                except Refused:
                    refused = True
            r.resp += got
            if refused:
                r.resp.append(([n, -1], "refused"))
                ok = False
                break
            continue
        try:
            want = resolve(trackers, counts, op, base, version, r.hits, r)
        except Refused:
            r.resp.append(([n], "refused"))
            ok = False
            break
        except Dropped:
            r.resp.append(([n], "failed"))
            continue
        if op.get("kept") and op["lib"] == "requests":
            # an own way to select adapters is used for real requests, as it would be without snapshots
            want = dict(want, asked="requests" not in trackers)
            r.kept = getattr(r, "kept", 0) + 1
        r.resp.append(([n], want))
        if b.get("print_results"):
            r.lines.append(f"{op['method']} {op['path']}: {want['status']}")
    if ok and b.get("end", "ok") in P.FAILS:
        ok = False
    r.store = {lib: t.used for lib, t in trackers.items()}
    for lib, cfg in reversed(decos):
        r.lines += ["# " + lib] + sorted(map(str, trackers[lib].used))
    r.ok = ok
    return r


def subset(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def differs(got, want):
    for k, v in want.items():
        if got.get(k) != v:
            return f"{k} is {got.get(k)!r:.300} instead of {v!r:.300}"
    return None


class Web:
    def __init__(self, ctx, rng, base, replay_bias):
        self.ctx, self.base = ctx, base
        self.spec = G.spec(rng, n=rng.randint(1, 4), dep=rng.choice([0, 0.3]), asy=0.5)
        self.spec["head"] = HEAD
        self.decos = {}
        self.asy = {}
        for ref, x in each(self.spec["units"]):
            libs = rng.choice([[], ["requests"], ["httpx"], ["requests", "httpx"], ["httpx", "requests"], ["requests", "httpx"]])
            self.decos[ref] = [(lib, config(rng)) for lib in libs]
            x["deco"] = [code(lib, c) for lib, c in self.decos[ref]]
            self.asy[ref] = bool(x.get("async"))
        self.proj = P.Project(ctx.newdir(), self.spec)
        self.held, self.history = {}, []
        self.few = paths(rng)
        self.version = rng.randrange(100)

    def ops(self, rng, c):
        few = self.few if rng.random() < 0.8 else paths(rng)
        rv = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            if rv and rng.random() < 0.35:
                rv.append(dict(rng.choice(rv)))
                op = rv[-1]
                if rng.random() < 0.5 and op.get("method") in ("POST", "PUT", "PATCH") and op["path"].split("/")[1] not in ("redir", "hop"):
                    # the same but for the method
                    op["method"] = rng.choice(["POST", "PUT", "PATCH"])
            elif rng.random() < 0.2:
                op = special(rng, rng.choice(["requests", "httpx"] + ["ahttpx"] * self.asy[c.ref]), self.decos[c.ref])
                rv += [op] if op else []
            else:
                rv.append(operation(rng, few, self.asy[c.ref]))
        return rv

    def behave(self, rng, c, keep):
        old = self.proj.behave.get(c.key)
        b = {"lines": [f"{c.key} version {rng.randrange(2)}"], "ret": ["int", 1], "http": self.ops(rng, c),
             "print_results": rng.random() < 0.4}
        if old is not None:
            k = rng.random()
            if k < keep:
                b["http"], b["print_results"] = old["http"], old["print_results"]
            elif k < keep + (1 - keep) * 0.7:
                b["http"] = list(old["http"])
                m = rng.choice(["add", "drop", "shuffle", "repeat"])
                if m == "add":
                    b["http"][rng.randint(0, len(b["http"])):0] = self.ops(rng, c)[:2]
                elif m == "drop" and b["http"]:
                    del b["http"][rng.randrange(len(b["http"]))]
                elif m == "shuffle":
                    rng.shuffle(b["http"])
                elif b["http"]:
                    b["http"].append(rng.choice(b["http"]))
        if rng.random() < 0.12:
            b["end"] = rng.choice(P.FAILS)
        self.proj.behave[c.key] = b

    def legacy(self, rng):
        """the captured requests in the directory layout of earlier versions"""
        if not self.held:
            return
        n = rng.choice(sorted(self.held))
        for lib in ("requests", "httpx"):
            p = os.path.join(self.proj.books, n, f".{lib}.json")
            if os.path.exists(p):
                with open(p) as f:
                    j = json.load(f)
                os.remove(p)
                d = os.path.join(self.proj.books, n, "." + lib)
                os.makedirs(d)
                for k, v in enumerate(j.values()):
                    with open(os.path.join(d, f"{k}.json"), "w") as f:
                        json.dump(v, f)
                self.ctx.count("legacy_snapshots")

    def run(self, args):
        """one command; None when the history has to end"""
        ctx, proj, base = self.ctx, self.proj, self.base
        flags, sel = P.split_args(args)
        par = G.parallel(args)
        version = self.version
        hits(base, version, not par)

        def call():
            import booktest.cli
            import sys

            def hook(event, a):
                if event == "socket.connect" and a[1] and isinstance(a[1], tuple):
                    rt.log(ev="connect", to=str(a[1]))
            sys.addaudithook(hook)
            rv = 1
            try:
                rv = booktest.cli.main(list(args))
            except SystemExit as e:
                rv = e.code
            out = []
            for lib, kept in (("requests", False), ("httpx", False), ("requests", True), ("httpx", True)):
                try:
                    op = {"lib": lib, "method": "GET", "path": f"/text/after/{lib}", "headers": {}, "kept": kept}
                    got = httpops.sync_request(op, base)
                    out.append([got["text"], got.get("asked")])
                except BaseException as e:
                    out.append(repr(e))
            rt.log(ev="after", seen=out)
            return rv

        o = proj.invoke(args, env={"VF_BASE": base}, call=call, quiesce=8)
        ctx.count("runs")
        ctx.nontrivial([proj.spec, proj.behave, args, version, sorted(self.held)])
        self.history.append([args, version])
        self.hits = hits(base, version, True)
        why, undecided = self.judge(o, flags, sel, par, version)
        if why:
            ctx.violation(f"{why} (arguments {args})", decorators=self.decos, behaviours=proj.behave, history=self.history,
                          hits=self.hits, stdout=o.stdout[-1500:], stderr=o.stderr[-1500:])
            return None
        if undecided:
            ctx.count("undecided_acceptance")
            return None
        return True

    def judge(self, o, flags, sel, par, version):
        ctx, proj, base = self.ctx, self.proj, self.base
        if o.hung or o.rc not in (0, 255):
            return f"the run ended with status {o.rc}: {o.stderr[-400:]}", False
        got = {}
        for e in o.events:
            if e["ev"] == "start":
                got.setdefault(proj.bykey[e["case"]].name, [])
            elif e["ev"] == "resp":
                x = "refused" if "refused" in e else "failed" if "failed" in e else e["seen"]
                got[proj.bykey[e["case"]].name].append((e["n"], x))
        results = dict(proj.records())
        values = dict(proj.values)
        chosen = P.choose(proj, sel, "-r" in flags)
        after = dict(self.held)
        hits, counts = [], {"": True} if par else {}
        undecided = False
        loose = par
        for n in (G.topological(proj, chosen) if par else chosen):
            c = proj.by[n]
            b = proj.behave[c.key]
            decos = self.decos[c.ref]
            r = model(c, b, decos, self.held, flags, any(x not in values for x in c.deps), base, version, counts)
            loose = loose or r.loose
            hits += r.hits
            if r.ran != (n in got):
                return f"{n} " + ("did not run" if r.ran else "ran"), False
            if r.ran:
                if [x[0] for x in got[n]] != [x[0] for x in r.resp]:
                    return f"{n} with {decos}: made the operations {[x[0] for x in got[n]]} (last {got[n][-1:]!r:.300}) instead of " \
                           f"{[x[0] for x in r.resp]}, missing in its snapshot {r.missing}", False
                for (k, g), (_, w) in zip(got[n], r.resp):
                    if isinstance(w, str) or isinstance(g, str):
                        if g != w:
                            return f"{n} with {decos}: operation {k} {op_text(b, k)}: {g!r:.200} instead of {w!r:.200}, missing {r.missing}", False
                    else:
                        d = differs(g, w)
                        if d:
                            return f"{n} with {decos}: operation {k} {op_text(b, k)}: {d}", False
                        ctx.count("responses")
            if not r.ok:
                raw = {"FAIL"}
            else:
                values[n] = rt.canon(rt.make(b["ret"]))
                if n not in self.held:
                    raw = {"DIFF"}
                elif self.held[n][0] == r.lines:
                    raw = {"OK"}
                elif subset(r.lines, self.held[n][0]):
                    raw = {"OK", "DIFF"}
                else:
                    raw = {"DIFF"}
            ok = {"OK" if x == "DIFF" and "-a" in flags else x for x in raw}
            if results.get(n) not in ok:
                return f"{n} is {results.get(n)} instead of {ok}, missing {r.missing}", False
            if len(raw) == 2 and ("-a" in flags or "-u" in flags):
                undecided = True
                after.pop(n, None)
                continue
            if (raw == {"DIFF"} and "-a" in flags) or (raw == {"OK"} and "-u" in flags):
                after[n] = (r.lines, r.store)
                ctx.count("accepted")
            ctx.count("streamed_responses", getattr(r, "streamed", 0))
            ctx.count("kept_session_responses", getattr(r, "kept", 0))
            for op in b["http"] if r.ran else ():
                for x in ("login", "digest", "timeout"):
                    if op.get(x):
                        ctx.count(x + "_requests")
            ctx.count("replayed_requests", r.replayed)
            ctx.count("captured_requests", r.captured)
            if r.missing:
                ctx.count("refused_requests")
            why = self.stored(n, after)
            if why:
                return why, False
            why = self.secrets(n, c, decos)
            if why:
                return why, False
        have = [h for h in self.hits if not h[1].startswith("/text/after/")]
        if (sorted(have) != sorted(hits)) if loose else (have != hits):
            return f"the server got the requests {have} instead of {hits}", False
        connects = sum(1 for e in o.events if e["ev"] == "connect")
        extra = sum(1 for h in self.hits if h[1].startswith("/text/after/"))
        if connects > len(hits) + extra:
            return f"{connects} connections were opened for {len(hits)} requests to send", False
        final = [e["seen"] for e in o.events if e["ev"] == "after"]
        want = [[answer("GET", f"/text/after/{lib}", b"", version, 0)[2].decode(), asked]
                for lib, asked in (("requests", None), ("httpx", None), ("requests", True), ("httpx", None))]
        if final != [want]:
            return f"real requests after the run gave {final} instead of {want}", False
        self.held.clear()
        self.held.update(after)
        proj.values = values
        return None, undecided

    def stored(self, n, after):
        if n not in after:
            return None
        for lib in ("requests", "httpx"):
            d = os.path.join(self.proj.books, n)
            entries = []
            p = os.path.join(d, f".{lib}.json")
            if os.path.exists(p):
                entries += list(json.loads(P.slurp(p)).values())
            q = os.path.join(d, "." + lib)
            if os.path.isdir(q):
                entries += [json.loads(P.slurp(os.path.join(q, x))) for x in os.listdir(q)]
            have = sorted((e["response"]["statusCode"], tag_of(e["response"]["headers"])) for e in entries)
            want = sorted((r[0], r[1]["X-Tag"]) for r in (after[n][1].get(lib) or {}).values())
            if have != want:
                return f"{n}: the stored {lib} responses (status, tag) are {have} instead of {want}"
        return None

    def secrets(self, n, c, decos):
        from vf.core import tree
        cfgs = dict(decos)
        for lib in ("requests", "httpx"):
            cfg = cfgs.get(lib)
            for root in (self.proj.books, self.proj.out):
                p = os.path.join(root, n, f".{lib}.json")
                if cfg is None or not os.path.exists(p):
                    continue
                text = P.slurp(p)
                for e in json.loads(text).values():
                    q = e["request"]
                    if cfg["lose_request_details"] and ("headers" in q or "body" in q):
                        return f"{n}: request details are stored in {p}: {q}"
                    if not cfg["lose_request_details"]:
                        ign = cfg["ignore_headers"]
                        bad = [k for k in q.get("headers", {}) if ign is True or (ign and k.lower() in {x.lower() for x in ign})]
                        if bad:
                            return f"{n}: ignored headers {bad} are stored in {p}: {q}"
                    self.ctx.count("stored_requests")
                if cfg["lose_request_details"] and "SECRET" in text:
                    return f"{n}: a request secret is stored in {p}"
        if all(c["lose_request_details"] for _, c in decos):
            for root in (self.proj.books, self.proj.out):
                for p, x in tree(root).items():
                    if isinstance(x, bytes) and (p.startswith(n + "/") or p.startswith(n + ".")) and b"SECRET" in x \
                            and not p.endswith(".bin"):
                        return f"{n}: a request secret is stored in {p}: {x[max(0, x.find(b'SECRET') - 100):][:200]}"
        return None

    def drop(self):
        self.ctx.drop(self.proj.root)


def op_text(b, k):
    op = b["http"][k[0]]
    if len(k) == 2:
        if k[1] < 0:
            return "(together)"
        op = op["ops"][k[1]]
    return f"{op['lib']} {op['method']} {op['path']}"
