"""Unprivileged parent of the shards. Ends them all when the cap is reached."""
import ctypes
import os
import signal
import subprocess
import sys
import time


def pdeathsig():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def main():
    prop, tier, seed, shards, cap = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    scratch = os.environ["VF_SCRATCH"]
    try:
        # orphans of killed processes are adopted here, and ended with us
        ctypes.CDLL(None).prctl(36, 1)
    except Exception:
        pass
    procs = []
    for s in range(shards):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str((seed * 64 + s) % 4294967295)
        log = open(os.path.join(scratch, "res", f"shard{s}.log"), "w")
        procs.append(subprocess.Popen([sys.executable, "-m", "vf.shard", prop, tier, str(seed), str(s), str(shards)],
                                      env=env, stdout=log, stderr=subprocess.STDOUT,
                                      stdin=subprocess.DEVNULL, start_new_session=True,
                                      preexec_fn=pdeathsig))
    end = time.time() + cap
    boss = os.getppid()
    while any(p.poll() is None for p in procs) and time.time() < end and os.getppid() == boss:
        time.sleep(0.02)
    rc = 0
    for p in procs:
        if p.poll() is None:
            rc = 7
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    # whatever was left behind
    me = os.getpid()
    for _ in range(50):
        kids = children(me)
        if not kids:
            break
        for k in kids:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        time.sleep(0.02)
    sys.exit(rc)


def children(pid):
    rv = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    s = f.read()
                if int(s.rsplit(")", 1)[1].split()[1]) == pid:
                    rv.append(int(d))
            except (OSError, ValueError, IndexError):
                pass
    return rv


if __name__ == "__main__":
    main()
