"""Helper of the demonstrations: runs the booktest of the current directory in a scratch directory."""
import atexit, os, shutil, subprocess, sys, tempfile

REPO = os.getcwd()
DIR = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, DIR, True)
RUN = "import sys; from booktest.cli import main; sys.exit(main())"


def write(rel, text, mode="w"):
    p = os.path.join(DIR, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, mode) as f:
        f.write(text)
    return p


def read(rel):
    with open(os.path.join(DIR, rel)) as f:
        return f.read()


def exists(rel):
    return os.path.exists(os.path.join(DIR, rel))


def py(code, *args, stdin="", env=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("BOOKTEST_")}
    e.update(PYTHONPATH=REPO, HOME=DIR, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
    e.update(env or {})
    exe = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    return subprocess.run([exe, "-c", code, *args], cwd=DIR, env=e, input=stdin,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)


def bt(*args, stdin="", env=None):
    return py(RUN, *args, stdin=stdin, env=env)


def test(body, name="test/demo_test.py"):
    write("test/__init__.py", "")
    write(name, "import booktest as bt\nimport os, sys\n" + body)


def records():
    if not exists("books/.out/cases.txt"):
        return {}
    return {l.split("\t")[0]: l.split("\t")[1] for l in read("books/.out/cases.txt").split("\n") if "\t" in l}


def expect(cond, what):
    if not cond:
        print("DEMO FAILED:", what)
        sys.exit(1)
