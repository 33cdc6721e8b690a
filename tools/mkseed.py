#!/usr/bin/env python3
"""Plants bugs: mkseed.py SPEC.py [ID..] - each spec has SEEDS = {id: dict(prop, edits, demo, needs, breaks)}.
Builds the patch in a copy of /repo, runs the stable tests there and the demo on both trees,
and writes /verif/seeded/<id> when all is as it should be."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "9a01272"
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable") or stable.get("passed") or stable.get("tests")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(item):
    sid, s = item
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        repo = w + "/repo"
        sh(["cp", "-a", "/repo", repo])
        sh(["git", "-C", repo, "checkout", "-q", "--", "."])
        blame = {}
        original = 0
        for f, a, b in s["edits"]:
            p = f"{repo}/booktest/{f}"
            t = open(p).read()
            if t.count(a) != 1:
                return sid, f"edit of {f} matches {t.count(a)} times: {a!r}"
            open(p, "w").write(t.replace(a, b))
        diff = sh(["git", "-C", repo, "diff", "--no-color"]).stdout
        # lines the patch removes must be of the original
        f = None
        for ln in diff.split("\n"):
            if ln.startswith("--- a/"):
                f = ln[6:]
                blame = {int(m.group(2)): m.group(1) for m in re.finditer(
                    r"^\^?([0-9a-f]+) .*?(\d+)\)", sh(["git", "-C", "/repo", "blame", "-s", f]).stdout, re.M)}
            elif ln.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", ln).group(1))
            elif ln.startswith("-") and not ln.startswith("---"):
                mine = sh(["git", "-C", "/repo", "merge-base", "--is-ancestor", blame[n], BASE]).returncode != 0
                if not mine:
                    original += 1
                elif ln[1:].strip():
                    return sid, f"changes a line of a fix: {ln}"
                n += 1
            elif ln.startswith(" "):
                n += 1
        if not original:
            return sid, "changes no original line"
        d = w + "/seed"
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(V + "/tools/demolib.py", d + "/demolib.py")
        open(d + "/demo.py", "w").write("from demolib import *\n\n" + s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if r.returncode != 0:
            return sid, "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
        r = sh(["bash", d + "/demo.sh"], cwd=repo)
        if r.returncode == 0:
            return sid, "demo passes with the bug:\n" + r.stdout[-1500:]
        shown = r.stdout.strip().split("\n")[-1][:150]
        t = open("/opt/vp/test.sh").read().replace("/opt/booktest-work", w + "/work").replace("/repo", repo)
        open(w + "/test.sh", "w").write(t)
        r = sh(["bash", w + "/test.sh", w + "/out.json"])
        ok = set(json.load(open(w + "/out.json"))["passed"])
        bad = [x for x in stable if x not in ok]
        if bad:
            return sid, f"stable tests fail: {bad[:5]}"
        o = f"{V}/seeded/{sid}"
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        return sid, "kept: " + shown
    finally:
        shutil.rmtree(w, ignore_errors=True)


spec = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
with ThreadPoolExecutor(6) as ex:
    for sid, why in ex.map(one, [(k, v) for k, v in spec.items() if not only or k in only]):
        print(sid, why, flush=True)
