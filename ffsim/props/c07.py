"""C07: every component can be loaded by itself from any finalfusion file that holds it."""
import contextlib
import copy
import errno
import resource

from ffsim import gen, iosim, model
from ffsim.core import TARGETS, Violation, gen_rofs, gen_short, shrink_faults

ID = "C07"
RUNS = {"quick": 26000, "thorough": 120000}
RULE = ("a run assembles a finalfusion file from planned chunks in a planned order (chunks of one or two sets of "
        "embeddings, so kinds may repeat or be absent), or lets the package save one, and lets several callers load single components from it, "
        "interleaved and through a disk that splits reads; distinct and non-trivial: (order of chunk kinds, alignment "
        "of the storage, loader, outcome), plus each distinct interleaving")
STUBS = ["system calls on simulated files: read lengths decided by the plan",
         "threads: real, released one at a time by the scheduler"]
ASSUMPTIONS = ["of several chunks that fit, a component loader gives the first (documented)"]
LOADERS = ["load_vocab", "load_simple_vocab", "load_finalfusion_bucket_vocab", "load_fasttext_vocab",
           "load_explicit_vocab", "load_storage", "load_storage/mmap", "load_ndarray", "load_ndarray/mmap",
           "load_quantized_array", "load_quantized_array/mmap", "load_norms", "load_metadata"]
IDS = {"load_vocab": [1, 3, 7, 8], "load_simple_vocab": [1], "load_finalfusion_bucket_vocab": [3],
       "load_fasttext_vocab": [7], "load_explicit_vocab": [8], "load_storage": [2, 4], "load_ndarray": [2],
       "load_quantized_array": [4], "load_norms": [6], "load_metadata": [5]}


def gen_plan(rng, tier):
    specs = [gen.gen_spec(rng, minrows=1, maxwords=8) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.05:
        specs.append(gen.gen_bare(rng))
    items = []
    for i, s in enumerate(specs):
        items += [["vocab", i]] if s.get("bare") else [[k, i] for k in model.chunk_kinds(gen.content_of(s))]
    how = rng.random()
    writer = "other"
    if how < 0.25:  # as the package itself writes them
        writer = "package"
        specs = specs[:1]
        items = [it for it in items if it[1] == 0]
        if rng.random() < 0.2:
            items = [rng.choice(items)]
    elif how < 0.6:
        rng.shuffle(items)
    if how > 0.4:
        items = items[:rng.randint(1, len(items))]
    plan = {"specs": specs, "items": items, "writer": writer, "target": rng.choice(TARGETS), "calls": [], "switches": [],
            "faults": ([gen_short(rng, "short_read")] if rng.random() < 0.6 else []) + gen_rofs(rng)}
    contents = [gen.content_of(s) for s in specs]
    have = {model.chunk_id(k, contents[i]) for k, i in items}
    fits = [x for x in LOADERS if have & set(IDS[x.split("/")[0]])]
    for _ in range(rng.randint(2, 5)):
        plan["calls"].append(rng.choice(fits) if rng.random() < 0.8 else rng.choice(LOADERS))
    if rng.random() < 0.4:
        plan["switches"] = sorted([rng.randrange(rng.choice([60, 400, 2000])), rng.randrange(5)]
                                  for _ in range(rng.randint(2, 14)))
    if writer == "other" and rng.random() < 0.01:  # one chunk of gigabytes (a hole in the file)
        width = rng.choice([4, 64, 400, 4096])
        g = {"kind": rng.choice(["nd", "norms", "pq"]), "width": width, "at": rng.randint(0, len(items) - 1),
             "count": rng.choice([2**31, 2**32, 2**32, 2**33]) // width + rng.randint(-3, 300)}
        ids = [model.chunk_id(k, contents[i]) for k, i in items]
        ids.insert(g["at"], model.GIANT_IDS[g["kind"]])
        first = [next((j for j, c in enumerate(ids) if c in IDS[x.split("/")[0]]), None) for x in LOADERS]
        fits = [x for x, j in zip(LOADERS, first) if j != g["at"]]
        good = [x for x, j in zip(LOADERS, first) if j is not None and j != g["at"]]
        if good:
            plan.update(giant=g, switches=[], calls=[rng.choice(good), rng.choice(fits)],
                        faults=[f for f in plan["faults"] if f["kind"] == "rofs"])
    return plan


def run(ctx, plan):
    contents = [gen.content_of(s) for s in plan["specs"]]
    items = [(k, contents[i]) for k, i in plan["items"]]
    giant = plan.get("giant")
    if giant:
        items.insert(giant["at"], ("giant", giant))
        pieces, offsets, size = model.enc_sparse(items)
    else:
        data = model.enc_finalfusion(None, items)
        offsets = model.chunk_offsets(data)
    ids = [model.GIANT_IDS[c["kind"]] if k == "giant" else model.chunk_id(k, c) for k, c in items]
    path = ctx.path("e.fifu")
    if giant:
        iosim.put_sparse(path, pieces, size)
        ctx.probe("files of gigabytes")
    elif plan.get("writer") == "package":
        emb, content = gen.build(ctx.ff, plan["specs"][0])
        whole = [k for k, _ in items] == model.chunk_kinds(content)
        if whole:
            ctx.must(lambda: emb.write(path), "Embeddings.write")
        elif len(items) == 1:
            part = ctx.component(emb, items[0][0])
            ctx.must(lambda: part.write(path), f"write of the {items[0][0]}")
        else:
            iosim.put(path, data)
        emb = part = None
    else:
        iosim.put(path, data)

    def call(name):
        base, _, mm = name.partition("/")
        fn = getattr(ctx.ff, base)
        if mm:
            return lambda t: fn(t, mmap=True)
        return fn

    def judge(name, kind, val):
        want = IDS[name.split("/")[0]]
        at = next((i for i, c in enumerate(ids) if c in want), None)
        what = f"{name} on a file with chunks {[k for k, _ in items]} (ids {ids})"
        ctx.probe("absent" if at is None else "present")
        ctx.seen(ids, name, None if at is None else offsets[at] % 4, kind)
        if kind == "exc" and giant and (isinstance(val, MemoryError) or getattr(val, "errno", None) == errno.ENOMEM):
            ctx.probe("too big to be read")
            return
        if at is None:
            if kind == "ok":
                raise Violation("phantom", f"{what}: returned a {type(val).__name__}")
            if not isinstance(val, ValueError):
                raise Violation("bad-failure", f"{what}: {type(val).__name__}: {val}, expected a ValueError")
            return
        if kind == "exc":
            raise Violation("rejected", f"{what}: {type(val).__name__}: {val}")
        k, c = items[at]
        d = ctx.check_chunk(k, val, c)
        if d:
            raise Violation("wrong-content", f"{what}: {d}")

    if plan["switches"]:
        res, sc = ctx.schedule([lambda n=n: call(n)(path) for n in plan["calls"]], plan["switches"], plan["faults"],
                               label="callers")
        ctx.trace.append(f"{plan['calls']} interleaved, {len(sc.history)} switches")
        ctx.seen("schedule", sc.signature())
        for n, (kind, val) in zip(plan["calls"], res):
            judge(n, kind, val)
        res = val = sc = None
    else:
        for n in plan["calls"]:
            tgt = ctx.target(plan["target"], path, write=False)
            with memory(2 << 30) if giant else contextlib.nullcontext():
                kind, val, s = ctx.run(lambda: call(n)(tgt), plan["faults"], label=n)
            ctx.trace.append(f"{n}: {kind}, {s.count['read']} reads")
            judge(n, kind, val)
            val = None
    ctx.leak_check(str(plan["calls"]))


@contextlib.contextmanager
def memory(more):
    """Loaders that read what they could skip must not take the machine's memory."""
    with open("/proc/self/statm", encoding="ascii") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (min(now + more, hard), hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def shrink(plan):
    if "giant" in plan:
        p = copy.deepcopy(plan)
        del p["giant"]
        yield p
        if plan["giant"]["at"] > 0:
            p = copy.deepcopy(plan)
            p["giant"]["at"] = 0
            yield p
    for key in ("calls", "switches", "items"):
        for lst in gen.shrink_list(plan[key]):
            if (lst or key == "switches") and not (key == "items" and "giant" in plan):
                p = copy.deepcopy(plan)
                p[key] = lst
                yield p
    if plan["target"] != "str":
        p = copy.deepcopy(plan)
        p["target"] = "str"
        yield p
    yield from shrink_faults(plan)
    for i, s in enumerate(plan["specs"]):
        for t in gen.shrink_spec(s):
            if gen.bound(t["vocab"]) < 1:
                continue
            kinds = model.chunk_kinds(gen.content_of(t))
            if all(k in kinds for k, j in plan["items"] if j == i):
                p = copy.deepcopy(plan)
                p["specs"][i] = t
                yield p
