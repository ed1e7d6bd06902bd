"""
A simulation process.  Speaks JSON lines on stdout.

  worker.py batch  PROP SEED TIER INDEX OF COUNT DEADLINE
  worker.py one    PROP            (plan on stdin)
  worker.py shrink PROP BUDGET     (plan on stdin)
  worker.py history PROP SEED TIER INDEX OF COUNT DEADLINE
  worker.py serve  PROP            (requests on stdin)
"""
import gc
import importlib
import json
import os
import random
import resource
import sys
import time
import traceback
import warnings


def setup():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import faulthandler
    faulthandler.enable()
    warnings.simplefilter("ignore")
    from ffsim import sched
    sched.install_locks()
    sched.warm_up()
    import numpy as np
    np.seterr(all="ignore")
    from ffsim import core
    ctx = core.Ctx()
    # cycles are collected between runs and where descriptors are counted, not in the middle of something
    gc.disable()
    gc.collect()
    gc.freeze()
    return ctx


def seed_of(seed, prop, i):
    return f"{seed}/{prop}/{i}"


def plan_of(mod, seed, tier, i):
    rng = random.Random(seed_of(seed, mod.ID, i))
    plan = mod.gen_plan(rng, tier)
    return json.loads(json.dumps(plan))


def execute(ctx, mod, plan):
    """{"v": None | {"class", "detail"}, "digest", "events", "sigs"}"""
    from ffsim import core, iosim
    ctx.begin()
    v = None
    try:
        try:
            mod.run(ctx, plan)
        finally:
            ctx.end()
            gc.collect()
    except core.Violation as e:
        v = {"class": e.cls, "detail": e.detail.replace(ctx.disk.root, "$SIM")}
    except iosim.HarnessError:
        raise
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, (OSError, MemoryError)) and not from_package(e):
            raise
        text = f"{type(e).__name__}: {e}".replace(ctx.disk.root, "$SIM")
        if from_package(e):
            v = {"class": "unexpected-error", "detail": text}
        else:  # the judge cannot even look at what the package returned
            v = {"class": "malformed-result:" + type(e).__name__ + place(e),
                 "detail": text + "\n" + traceback.format_exc(limit=-6).replace(ctx.disk.root, "$SIM")}
    ctx.note("verdict", v)
    return {"v": v, "digest": ctx.digest(), "events": ctx.events, "sigs": sorted(ctx.sigs),
            "trace": ctx.trace}


OUT = None


def private_stdout():
    """Results go to the original stdout; whatever the package prints does not."""
    global OUT
    OUT = os.fdopen(os.dup(1), "w", encoding="utf-8")
    null = os.open("/dev/null", os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)


def emit(**kw):
    OUT.write(json.dumps(kw) + "\n")
    OUT.flush()


def from_package(exc):
    """Did the exception come out of the package under test?"""
    tb = exc.__traceback__
    seen = False
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if "finalfusion/" in name:
            seen = True
        tb = tb.tb_next
    return seen


def place(exc):
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    code = tb.tb_frame.f_code
    return f"@{os.path.basename(code.co_filename)}:{code.co_name}:{tb.tb_lineno}"


def batch(ctx, mod, seed, tier, index, of, count, deadline):
    sigs = set()
    runs = events = 0
    samples = []
    digests = []
    t0 = time.monotonic()
    for i in range(index, count, of):
        if time.monotonic() - t0 > deadline:
            break
        plan = plan_of(mod, seed, tier, i)
        emit(t="start", i=i)
        try:
            r = execute(ctx, mod, plan)
        except Exception:  # pylint: disable=broad-except
            hard = resource.getrlimit(resource.RLIMIT_AS)[1]
            resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
            emit(t="harness", i=i, plan=plan, error=traceback.format_exc())
            return
        runs += 1
        events += r["events"]
        sigs.update(r["sigs"])
        digests.append((i, r["digest"]))
        if len(samples) < 2:
            samples.append({"seed": seed_of(seed, mod.ID, i), "plan": plan, "trace": r["trace"][:12]})
        if r["v"]:
            emit(t="violation", i=i, plan=plan, v=r["v"], trace=r["trace"])
            break
    emit(t="done", runs=runs, events=events, sigs=sorted(sigs), samples=samples,
         probes=dict(ctx.probes), fired=dict(ctx.disk.fired), calls=dict(ctx.disk.totals),
         digests=digests)


def shrink(ctx, mod, plan, budget):
    t0 = time.monotonic()
    r = execute(ctx, mod, plan)
    if not r["v"]:
        emit(t="shrunk", plan=plan, v=None, steps=0)
        return
    cls = r["v"]["class"]
    best, bestv, trace = plan, r["v"], r["trace"]
    steps = tries = 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for cand in mod.shrink(best):
            cand = json.loads(json.dumps(cand))
            if cand == best:
                continue
            if time.monotonic() - t0 > budget:
                break
            tries += 1
            emit(t="try")
            try:
                r = execute(ctx, mod, cand)
            except Exception:  # pylint: disable=broad-except
                continue  # a plan the harness cannot run is no simplification
            if r["v"] and r["v"]["class"] == cls:
                best, bestv, trace = cand, r["v"], r["trace"]
                steps += 1
                progress = True
                emit(t="best", plan=best, v=bestv)
                break
    emit(t="shrunk", plan=best, v=bestv, steps=steps, tries=tries, trace=trace)


def serve(ctx, mod):
    """Answer requests of another simulation process, one JSON line each, until it goes away."""
    for line in sys.stdin:
        ctx.begin()
        try:
            try:
                res = mod.serve(ctx, json.loads(line))
            finally:
                ctx.end()
        except Exception:  # pylint: disable=broad-except
            res = {"harness": traceback.format_exc()}
        OUT.write(json.dumps(res) + "\n")
        OUT.flush()


def main():
    mode, prop = sys.argv[1:3]
    args = sys.argv[3:]
    private_stdout()
    ctx = setup()
    code = 0
    try:
        mod = importlib.import_module("ffsim.props." + prop.lower())
        if mode == "serve":
            # results are exchanged through copies: standard input is the tools' standard input
            keep = os.dup(0)
            null = os.open("/dev/null", os.O_RDONLY)
            os.dup2(null, 0)
            os.close(null)
            sys.stdin = os.fdopen(keep, encoding="utf-8")
            serve(ctx, mod)
            return
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        if mode == "batch":
            batch(ctx, mod, args[0], args[1], *map(int, args[2:5]), float(args[5]))
        elif mode == "one":
            plan = json.load(sys.stdin)
            r = execute(ctx, mod, plan)
            emit(t="one", **r)
        elif mode == "shrink":
            shrink(ctx, mod, json.load(sys.stdin), float(args[0]))
        elif mode == "history":  # the same process as the one of the batch, up to a run
            batch(ctx, mod, args[0], args[1], *map(int, args[2:5]), float(args[5]))
    except Exception:  # pylint: disable=broad-except
        emit(t="harness", i=None, error=traceback.format_exc())
        code = 3
    finally:
        ctx.disk.close()
    OUT.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
