"""C08: a load sees exactly one version of a file that is replaced while it runs."""
import copy
import os

from ffsim import compat, gen, iosim, model, observe
from ffsim.core import Violation, gen_short, shrink_faults

ID = "C08"
RUNS = {"quick": 60000, "thorough": 100000}
RULE = ("a run loads a file (whole or one component, eager or memory mapped, any format) while at planned system calls "
        "of the load another process replaces the file by another complete version (rename, or unlink and create), or "
        "another thread changes the working directory under a relative path; distinct and non-trivial: (loader, "
        "vocabulary and storage kinds, kind of replacement, system call at which it happened, version obtained) of a "
        "load during which at least one replacement happened")
STUBS = ["other processes: rename / unlink / chdir performed by the simulator at planned system calls",
         "system calls on simulated files: read lengths decided by the plan"]
ASSUMPTIONS = ["versions are replaced as a whole; overwriting a file in place while it is loaded is C03"]


def variant(rng, spec):
    """Another version that is as easy as possible to mix up with the first."""
    s = copy.deepcopy(spec)
    k = rng.random()
    s["mseed"] = rng.randrange(2**31)
    if k < 0.5:
        words = s["vocab"]["words"]
        s["vocab"]["words"] = [w[::-1] + "x" if i % 2 else w + "y" for i, w in enumerate(words)]
        if len(set(s["vocab"]["words"])) != len(words):
            s["vocab"]["words"] = words
    if spec["vocab"]["type"] == "simple" and rng.random() < 0.4:  # longer or shorter
        words = s["vocab"]["words"]
        if len(words) > 1 and rng.random() < 0.5:
            del words[rng.randint(1, len(words) - 1):]
        else:
            words += [w for w in (f"more{i}" for i in range(rng.randint(1, 4))) if w not in words]
    if "meta" in s:
        s["meta"] = {"version": rng.randrange(1000)}
    if rng.random() < 0.2:
        s.pop("norms", None)
    return s


def gen_plan(rng, tier):
    fmt = rng.choice(["finalfusion", "finalfusion", "finalfusion", "finalfusion", "word2vec", "text", "textdims",
                      "fasttext"])
    if fmt == "finalfusion":
        specs = [gen.gen_spec(rng, minrows=1, maxwords=8)]
    else:
        specs = [compat.gen_compat_spec(rng, fmt, maxwords=8, minwords=1, big=rng.random() < 0.3)]
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.7:
            specs.append(variant(rng, specs[0]))
        elif fmt == "finalfusion":
            specs.append(gen.gen_spec(rng, minrows=1, maxwords=8))
        else:
            specs.append(compat.gen_compat_spec(rng, fmt, maxwords=8, minwords=1))
    return {"fmt": fmt, "specs": specs, "loader": rng.randrange(64), "style": compat.gen_style(rng),
            "how": rng.choice(["rename", "rename", "rename", "unlink", "chdir", "remove"]),
            "later": rng.choice(["replace", "remove", "overwrite", "overwrite", "truncate"]),
            "at": sorted(rng.random() for _ in range(len(specs) - 1)),
            "faults": [gen_short(rng, "short_read")] if rng.random() < 0.5 else []}


def jobs(ctx, plan, contents, raws):
    """(name, fn(path), [diff for each version])"""
    fmt = plan["fmt"]
    if fmt != "finalfusion":
        return [(f"load_{fmt}", lambda t: ctx.loader(fmt, t)(),
                 [lambda e, r=r: compat.diff(e, r) for r in raws])]
    out = []
    for mm in ({}, {"mmap": False}, {"mmap": True}, {"mmap": True}):
        out.append((f"load_finalfusion({mm})", lambda t, m=mm: ctx.ff.load_finalfusion(t, **m),
                    [lambda e, c=c: observe.embeddings(e, c) for c in contents]))

    def part(kind, c):
        if kind == "norms" and c.norms is None or kind == "meta" and c.meta is None:
            return lambda got: "absent in this version"
        return lambda got: ctx.check_chunk(kind, got, c)
    names = [("load_vocab", "vocab", ctx.ff.load_vocab)]
    for mm in ({}, {"mmap": False}, {"mmap": True}, {"mmap": True}):
        names.append((f"load_storage({mm})", "storage", lambda p, m=mm: ctx.ff.load_storage(p, **m)))
    kinds = {c.storage.kind for c in contents}
    if len(kinds) == 1:
        special = ctx.ff.load_ndarray if kinds == {"nd"} else ctx.ff.load_quantized_array
        for mm in ({}, {"mmap": False}, {"mmap": True}):
            names.append((f"{special.__name__}({mm})", "storage", lambda p, m=mm: special(p, **m)))
    if all(c.norms is not None for c in contents):
        names.append(("load_norms", "norms", ctx.ff.load_norms))
    if all(c.meta is not None for c in contents):
        names.append(("load_metadata", "meta", ctx.ff.load_metadata))
    for name, kind, fn in names:
        out.append((name, fn, [part(kind, c) for c in contents]))
    return out


def run(ctx, plan):
    contents = [gen.content_of(s) for s in plan["specs"]]
    raws, blobs = [], []
    for c in contents:
        if plan["fmt"] == "finalfusion":
            blobs.append(model.enc_finalfusion(c))
        else:
            blobs.append(compat.encode(plan["fmt"], c, plan["style"]))
            raws.append(compat.parse(plan["fmt"], blobs[-1]))
    js = jobs(ctx, plan, contents, raws)
    name, fn, diffs = js[plan["loader"] % len(js)]
    chdir = plan["how"] == "chdir"
    dirs = []
    for i in range(len(blobs)):
        dirs.append(ctx.path(f"v{i}"))
        os.mkdir(dirs[-1])
    path = "e.bin" if chdir else ctx.path("e.bin")

    def publish(i):
        if chdir:
            iosim.put(os.path.join(dirs[i], "e.bin"), blobs[i])
            os.chdir(dirs[i])
        elif plan["how"] == "unlink":
            if os.path.exists(path):
                os.unlink(path)
            iosim.put(path, blobs[i])
        else:
            tmp = ctx.path("tmp")
            iosim.put(tmp, blobs[i])
            os.rename(tmp, path)

    publish(0)
    ref, s = ctx.must(lambda: fn(path), f"{name}, undisturbed", faults=plan["faults"])
    d = diffs[0](ref)
    if d:
        raise Violation("wrong-content", f"{name}, undisturbed: {d}")
    ref = None
    actions, steps = {}, []
    if plan["how"] == "remove":
        steps = [int(plan["at"][0] * s.total)]
        actions[steps[0]] = lambda: os.unlink(path)
    for i, f in enumerate(plan["at"] if not steps else []):
        step = int(f * s.total)
        while step in actions:
            step += 1
        actions[step] = lambda k=i + 1: publish(k)
        steps.append(step)
    kind, got, s2 = ctx.run(lambda: fn(path), plan["faults"], actions=actions, label="replaced")
    happened = s2.fired["action"]
    what = f"{name} while the file is replaced ({plan['how']}) at system calls {steps} of {s.total}"
    if kind == "exc" and plan["how"] == "remove" and isinstance(got, FileNotFoundError) and not s2.count["read"]:
        ctx.probe("removed-before-open")
        got = None
        ctx.leak_check(what)
        publish(0)
        ref, _ = ctx.must(lambda: fn(path), f"{name}, put back")
        d = diffs[0](ref)
        if d:
            raise Violation("wrong-content", f"{name}, put back: {d}")
        return
    if kind == "exc":
        raise Violation("failed", f"{what}: {type(got).__name__}: {got}")
    # what happens to the file later does not matter either
    later = plan.get("later", "replace")
    if "True" in name and later not in ("replace", "remove"):
        later = "replace"  # a mapping shows what becomes of the file itself
    if not os.path.exists(path):
        later = "replace"
    if later == "replace":
        publish(len(blobs) - 1)
    elif later == "remove":
        os.unlink(path)
    elif later == "truncate":
        os.truncate(path, 0)
    else:
        data = iosim.get(path).translate(bytes(255 - b for b in range(256)))
        with open(path, "r+b") as f:
            f.write(data)
    results = [d(got) for d in diffs]
    which = [i for i, r in enumerate(results) if r is None]
    ctx.trace.append(f"{what}: version {which}")
    if not which:
        raise Violation("mixed", f"{what}: the result is no version: {results}")
    got = None
    ctx.leak_check(what)
    if happened:
        ctx.probe("replaced-during-load", happened)
        ctx.probe(f"got-version:{which[0]}")
        ctx.probe(f"later:{later}")
        ctx.seen(name, [x["vocab"]["type"] for x in plan["specs"]], plan["specs"][0]["storage"]["type"], plan["how"],
                 steps, which)


def shrink(plan):
    if len(plan["specs"]) > 2:
        for i in range(1, len(plan["specs"])):
            p = copy.deepcopy(plan)
            p["specs"].pop(i)
            p["at"].pop(i - 1)
            yield p
    for key, val in (("how", "rename"), ("loader", 0), ("later", "replace")):
        if plan.get(key, val) != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    yield from shrink_faults(plan)
    for i, s in enumerate(plan["specs"]):
        for t in gen.shrink_spec(s):
            if gen.bound(t["vocab"]) < 1 or plan["fmt"] == "fasttext" and t["vocab"]["type"] != "fasttext" or \
                    plan["fmt"] != "finalfusion" and not t["vocab"]["words"]:
                continue
            p = copy.deepcopy(plan)
            p["specs"][i] = t
            yield p
