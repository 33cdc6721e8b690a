"""
Root side of a check: prepares a scratch directory, runs the monitoring
workload as an unprivileged user in 8 shards, merges what the monitors
observed into the verdict and the evidence file.

  exit 0  held on everything observed
  exit 1  VIOLATION line(s)
  exit 3  no verdict (harness error, or the monitors observed too little)
"""
import importlib
import json
import os
import pwd
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.dirname(HERE)
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("VF_REPO", "/repo")
NOBODY = 65534


def known_findings(prop):
    rv = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                parts = line[len("known: "):].strip().split(" ", 2)
                if parts[0] == f"property={prop}":
                    assert parts[1].startswith("key="), line
                    rv[parts[1][4:]] = parts[2]
    return rv


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    args = [a for a in sys.argv[1:]]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(args) > 1:
        tier = args[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    shards = int(os.environ.get("VF_SHARDS") or 8)
    begin = time.time()

    scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-", dir="/tmp")
    try:
        rc = run(prop, tier, seed, shards, scratch, begin)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, seed, shards, scratch, begin):
    os.chmod(scratch, 0o755)
    # the code under test, taken from the current working tree
    lib = os.path.join(scratch, "lib")
    os.makedirs(lib)
    ign = shutil.ignore_patterns("__pycache__", "*.pyc")
    shutil.copytree(os.path.join(REPO, "booktest"), os.path.join(lib, "booktest"), ignore=ign)
    shutil.copytree(HERE, os.path.join(lib, "vf"), ignore=ign)
    shim = None
    if prop in ("C14", "C38"):
        shim = os.path.join(lib, "crash.so")
        cc = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", shim, os.path.join(LIB, "shim", "crash.c"), "-ldl"],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if cc.returncode != 0:
            print(f"{prop}: the interposer does not compile:")
            print(cc.stdout.decode()[-2000:])
            return 3
    for d in ("work", "home", "res"):
        os.makedirs(os.path.join(scratch, d))
    root = os.getuid() == 0
    if root:
        for base, dirs, files in os.walk(scratch):
            for x in dirs + files:
                os.chown(os.path.join(base, x), NOBODY, NOBODY)
        os.chown(scratch, NOBODY, NOBODY)

    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": os.path.join(scratch, "home"),
        "TMPDIR": os.path.join(scratch, "work"),
        "LC_ALL": "C.UTF-8",
        "PYTHONPATH": lib,
        "PYTHONNOUSERSITE": "1",
        "VF_SCRATCH": scratch,
    }
    # the library is byte compiled once, what the workloads write is not
    pre = subprocess.run([sys.executable, "-m", "compileall", "-q", lib], env=env,
                         **ids(root), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch)
    if pre.returncode != 0:
        print(f"{prop}: the code under test does not compile:")
        print(pre.stdout.decode()[-2000:])
        return 3
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("VF_ONLY", "VF_SECONDS"):
        if k in os.environ:
            env[k] = os.environ[k]
    if shim is not None:
        env["LD_PRELOAD"] = env["VF_SHIM"] = shim

    cap = 820 if tier == "quick" else int(os.environ.get("VF_CAP") or 5400)
    sup = subprocess.Popen([sys.executable, "-m", "vf.supervisor", prop, tier, str(seed), str(shards), str(cap)],
                           env=env, cwd=os.path.join(scratch, "work"), start_new_session=True, **ids(root))
    try:
        rc = sup.wait(cap + 40)
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(sup.pid, signal.SIGKILL)
        except OSError:
            pass
    sys.path.insert(0, LIB)
    from vf.merge import merge
    return merge(prop, tier, seed, shards, scratch, begin, rc, VERIF, known_findings(prop))


def ids(root):
    if root:
        return {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    return {}


if __name__ == "__main__":
    main()
