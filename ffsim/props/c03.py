"""C03: a finalfusion file that was not completely written is never taken for a good one."""
import copy

from ffsim import gen, iosim, model, observe
from ffsim.core import Violation, gen_short, shrink_faults, shrink_key_spec

ID = "C03"
RUNS = {"quick": 28000, "thorough": 100000}
RULE = ("a run records every change a save makes to the simulated disk, rebuilds the disk as a crash "
        "would leave it at each planned instant (between and inside writes) and starts every fitting "
        "loader on it, or lets a reader run while the save is under way; distinct and non-trivial: "
        "(kinds, chunk and offset within the chunk of the crash, outcome of each loader) of an "
        "incomplete, non-empty image, or the interleaving of a live reader")
STUBS = ["disk after a crash: rebuilt from the log of accepted changes, in order, cut at the planned instant",
         "threads: real, released one at a time by the scheduler (live-reader runs)"]
ASSUMPTIONS = ["a crash keeps a prefix, in order, of what the save handed to the operating system; the "
               "format has no checksums, so lost or reordered blocks inside a file cannot be detected",
               "a live reader starts on a path that held no older file"]


def gen_plan(rng, tier):
    spec = gen.gen_spec(rng)
    unit = "full"
    if rng.random() < 0.2:
        unit = rng.choice(model.chunk_kinds(gen.content_of(spec)))
    plan = {"spec": spec, "unit": unit, "faults": [], "old": None, "points": [], "live": None}
    if rng.random() < 0.5:
        plan["faults"].append(gen_short(rng, "short_write"))
    if rng.random() < 0.15:
        plan["live"] = {"mmap": rng.random() < 0.5,
                        "switches": sorted([rng.randrange(rng.choice([60, 500, 3000])), rng.randrange(2)]
                                           for _ in range(rng.randint(2, 14)))}
        return plan
    if rng.random() < 0.2:
        plan["old"] = gen.gen_spec(rng, maxwords=4, big=False)
    for _ in range(8):
        if rng.random() < 0.5:
            plan["points"].append({"frac": rng.random()})
        else:
            plan["points"].append({"chunk": rng.randrange(6), "delta": rng.choice(
                [-9, -5, -4, -3, -2, -1, 0, 0, 0, 1, 3, 4, 8, 11, 12, 13, 16, 20, 24, 28])})
    return plan


def run(ctx, plan):
    emb, content = gen.build(ctx.ff, plan["spec"])
    path = ctx.path("e.fifu")
    obj = emb if plan["unit"] == "full" else ctx.component(emb, plan["unit"])
    if plan["live"]:
        return live(ctx, plan, obj, content, path)
    initial = {}
    oldc = None
    if plan["old"]:
        oldc = gen.content_of(plan["old"])
        initial[path] = model.enc_finalfusion(oldc)
        iosim.put(path, initial[path])
    _, s = ctx.must(lambda: obj.write(path), "save", faults=plan["faults"], log=True)
    data = iosim.get(path)
    total = iosim.log_steps(s.log)
    if iosim.image_at(initial, s.log, total).get(path) != data:
        raise iosim.HarnessError("the write log does not reproduce the file")
    try:
        offsets = model.chunk_offsets(data)
    except model.Malformed as e:
        raise Violation("bad-file", f"the completed save is not a valid file: {e}")
    for p in plan["points"]:
        if "frac" in p:
            step = int(p["frac"] * (total + 1))
        else:
            step = total - len(data) + offsets[p["chunk"] % len(offsets)] + p["delta"]
        step = max(0, min(total, step))
        image = iosim.image_at(initial, s.log, step).get(path)
        if image is None:
            ctx.probe("crash-before-creation")
            continue
        judge(ctx, plan, path, image, data, content, initial.get(path), oldc, offsets)
    return None


def judge(ctx, plan, path, image, data, content, olddata, oldc, offsets):
    iosim.put(path, image)
    state = "old" if image == olddata else "complete" if image == data else "torn"
    ctx.probe("image:" + state)
    at = max([o for o in offsets if o <= len(image)], default=0)
    outcomes = []
    where = f"file of {len(data)} bytes cut to {len(image)} (chunk starts {offsets})"
    jobs = []
    if plan["unit"] == "full" or state == "old":
        for mm in (False, True):
            jobs.append((f"load_finalfusion(mmap={mm})", "all",
                         lambda p, m=mm: ctx.ff.load_finalfusion(p, mmap=m)))
    truth = oldc if state == "old" else content
    for job in ctx.chunk_loaders(truth):
        if plan["unit"] in ("full", job[1]) or state == "old":
            jobs.append(job)
    for name, kind, fn in jobs:
        k, got, _ = ctx.run(lambda: fn(path), label=name)
        outcomes.append((name, k))
        if k == "exc":
            if not isinstance(got, Exception):
                raise Violation("bad-failure", f"{name} on {where}: {got!r}")
            if state != "torn":
                raise Violation("rejected", f"{name} on the {state} file: {type(got).__name__}: {got}")
            continue
        diff = observe.embeddings(got, truth) if kind == "all" else ctx.check_chunk(kind, got, truth)
        if diff:
            raise Violation("torn-accepted", f"{name} on {where}: returned normally, but {diff}")
        if state == "torn":
            ctx.probe("torn-but-chunk-complete")
    got = None
    ctx.leak_check(f"loaders on {where}")
    ctx.trace.append(f"crash at {len(image)} of {len(data)} bytes ({state}): {outcomes}")
    if state == "torn" and image:
        ctx.seen(plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"], offsets.index(at)
                 if at in offsets else -1, min(len(image) - at, 64), outcomes)


def live(ctx, plan, obj, content, path):
    kinds = [plan["unit"]] if plan["unit"] != "full" else ["all"]
    results = []

    def reader():
        for _ in range(3):
            try:
                if kinds[0] == "all":
                    got = ctx.ff.load_finalfusion(path, mmap=plan["live"]["mmap"])
                else:
                    name, _, fn = [j for j in ctx.chunk_loaders(content) if j[1] == kinds[0]][0]
                    got = fn(path)
                results.append(("ok", got))
            except Exception as e:  # pylint: disable=broad-except
                iosim.strip_tb(e)
                results.append(("exc", e))

    res, sc = ctx.schedule([lambda: obj.write(path), reader], plan["live"]["switches"], plan["faults"],
                           label="live")
    if res[0][0] != "ok":
        raise Violation("unexpected-error", f"save with a concurrent reader: {res[0][1]!r}")
    if res[1][0] != "ok":
        raise Violation("bad-failure", f"reader: {res[1][1]!r}")
    for k, got in results:
        ctx.probe("live-reader:" + k)
        if k == "ok":
            diff = observe.embeddings(got, content) if kinds[0] == "all" else \
                ctx.check_chunk(kinds[0], got, content)
            if diff:
                raise Violation("torn-accepted", f"a reader running during the save returned normally, but {diff}")
    ctx.trace.append(f"live reader: {[k for k, _ in results]}, {len(sc.history)} switches")
    if len(sc.history) > 1:
        ctx.seen("live", sc.signature())


def shrink(plan):
    if plan["live"]:
        for sw in gen.shrink_list(plan["live"]["switches"]):
            p = copy.deepcopy(plan)
            p["live"]["switches"] = sw
            yield p
    for pts in gen.shrink_list(plan["points"]):
        if pts:
            p = copy.deepcopy(plan)
            p["points"] = pts
            yield p
    if plan["old"]:
        p = copy.deepcopy(plan)
        p["old"] = None
        yield p
    yield from shrink_faults(plan)
    for p in shrink_key_spec(plan):
        if p["unit"] in ["full"] + model.chunk_kinds(gen.content_of(p["spec"])):
            yield p
