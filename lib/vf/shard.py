"""One shard: runs the seeded cases of one check and saves what was observed."""
import importlib
import os
import sys
import time
import traceback

from vf.core import Ctx, CpuExceeded, Inconclusive, StopShard, cpu_guard, limit_memory


def main():
    prop, tier, seed, shard, shards = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    scratch = os.environ["VF_SCRATCH"]
    out = os.path.join(scratch, "res", f"shard{shard}.json")
    limit_memory()
    ctx = Ctx(prop, tier, seed, shard, shards, scratch)
    os.chdir(ctx.work)
    done = False
    only = os.environ.get("VF_ONLY")
    try:
        import booktest
        import booktest.cli
        if not os.path.abspath(booktest.__file__).startswith(scratch + "/"):
            raise RuntimeError(f"wrong booktest {booktest.__file__}")
        mod = importlib.import_module(f"vf.checks.{prop.lower()}")
        plan = mod.PLAN[tier]
        n = plan["cases"]
        end = time.time() + float(os.environ.get("VF_SECONDS") or plan["seconds"])
        if hasattr(mod, "prepare"):
            mod.prepare(ctx)
        i = shard
        k = 0
        last = time.time()
        while k < n:
            if only is not None and i != int(only):
                i += shards
                k += 1
                continue
            ctx.case = i
            try:
                mod.case(ctx, ctx.rng(i), i)
            except Inconclusive as e:
                ctx.unclear(str(e))
            ctx.evaluations += 1
            i += shards
            k += 1
            if time.time() > end:
                ctx.count("stopped_by_time_cap")
                break
            if time.time() - last > 20:
                last = time.time()
                ctx.save(out, False)
        done = True
    except StopShard:
        done = True
    except Exception:
        ctx.errors.append({"case": ctx.case, "trace": traceback.format_exc()[-3000:]})
    except BaseException:
        ctx.errors.append({"case": ctx.case, "trace": traceback.format_exc()[-3000:]})
    os.chdir("/")
    ctx.save(out, done)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
