"""C05: saving never changes the embeddings, whatever happens to the save."""
import copy

import numpy as np

from ffsim import gen, iosim, model, observe
from ffsim.core import Violation, gen_short, shrink_faults, shrink_key_spec

ID = "C05"
RUNS = {"quick": 14000, "thorough": 50000}
RULE = ("a run saves one set of embeddings (built in memory, loaded or memory mapped) several times in planned formats; "
        "each save succeeds, meets a disk fault, is interrupted at a planned bytecode or system call, or runs "
        "interleaved with another caller's save or queries; after each, the embeddings are compared bit by bit with "
        "their state before, and a final undisturbed save with the reference; distinct and non-trivial: (format, "
        "storage and vocabulary kind, origin, disturbance and the place where it hit)")
STUBS = ["system calls on simulated files: write results decided by the plan",
         "interrupts: raised by the trace function at the planned bytecode",
         "threads: real, released one at a time by the scheduler (interleaved saves)"]
ASSUMPTIONS = ["the target of a save is not the file that backs memory mapped embeddings (open finding own-file, "
               "shown by a run of its own)"]


def gen_attempt(rng, fmts):
    a = {"fmt": rng.choice(fmts), "how": rng.choice(["ok", "fault", "fault", "intr", "intr", "intr", "pair", "pair"])}
    if a["how"] == "fault":
        a["fault"] = rng.choice(["enospc", "write", "close", "open"])
        a["frac"] = rng.random()
        a["errno"] = rng.choice(["EIO", "ENOSPC"])
    elif a["how"] == "intr":
        a["frac"] = rng.random()
        a["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
    elif a["how"] == "pair":
        a["other"] = rng.choice(fmts + ["query", "query"])
        a["switches"] = sorted([rng.randrange(rng.choice([50, 400, 3000])), rng.randrange(2)]
                               for _ in range(rng.randint(2, 12)))
    return a


def gen_plan(rng, tier):
    kind = rng.choice(["simple", "bucket", "fasttext", "fasttext", "explicit"])
    spec = gen.gen_spec(rng, kind, odd=False, maxwords=6, big=rng.random() < 0.1,
                        layouts=["C", "C", "F", "be", "stride", "slice", "ro"])
    if spec["storage"]["type"] == "pq":
        spec["storage"]["layout"] = "C"
    fmts = ["finalfusion", "finalfusion", "word2vec", "text", "textdims"]
    if kind == "fasttext" and spec["storage"]["type"] == "nd":
        fmts += ["fasttext"] * 3
    fmts += model.chunk_kinds(gen.content_of(spec))[:1] if rng.random() < 0.2 else []
    return {"spec": spec, "origin": rng.choice(["memory", "memory", "loaded", "mapped"]),
            "faults": [gen_short(rng, "short_write")] if rng.random() < 0.4 else [],
            "attempts": [gen_attempt(rng, fmts) for _ in range(4)]}


def save_fn(ctx, emb, fmt, path):
    if fmt in ("meta", "vocab", "storage", "norms"):
        return lambda: ctx.component(emb, fmt).write(path)
    return ctx.writer(fmt, emb, path)


def known_plan(name):
    """The run that shows an open finding."""
    assert name == "own-file"
    return {"known": name, "spec": {"mseed": 1, "dims": 512, "storage": {"type": "nd", "layout": "C"},
                                    "vocab": {"type": "simple", "words": [f"w{i}" for i in range(40)]}}}


def own_file(ctx, plan):
    """Embeddings that are mapped from a file are saved to that file."""
    _, content = gen.build(ctx.ff, plan["spec"])
    path, data = ctx.path("own.fifu"), model.enc_finalfusion(content)
    iosim.put(path, data)
    emb, _ = ctx.must(ctx.loader("finalfusion", path, True), "load the source")
    kind, val, _ = ctx.run(lambda: emb.write(path))
    # the mapping must not be touched if the file is shorter now: that would end the process
    if iosim.get(path) != data:
        raise Violation("own-file", f"saving memory mapped embeddings to the file they are mapped from gives {kind} "
                                    f"({val!r}) and leaves {len(iosim.get(path))} of {len(data)} bytes")


def run(ctx, plan):
    if "known" in plan:
        own_file(ctx, plan)
        return
    emb, content = gen.build(ctx.ff, plan["spec"])
    srcpath = ctx.path("src.fifu")
    srcdata = model.enc_finalfusion(content)
    if plan["origin"] != "memory":
        iosim.put(srcpath, srcdata)
        emb, _ = ctx.must(ctx.loader("finalfusion", srcpath, plan["origin"] == "mapped"), "load the source")
    before = observe.Frozen(emb)
    nopen = ctx.disk.open_fds()
    held = [(w, emb[w], np.array(emb[w])) for w in content.vocab.words[:2]]
    reference = {}
    for i, a in enumerate(plan["attempts"]):
        for fmt in sorted({a["fmt"], a.get("other", a["fmt"])} - {"query"}):
            if fmt not in reference:
                ctx.must(save_fn(ctx, emb, fmt, ctx.path("ref")), f"save {fmt}", faults=plan["faults"])
                reference[fmt] = iosim.get(ctx.path("ref"))
                unchanged(ctx, emb, before, held, f"an undisturbed {fmt} save")
        where = attempt(ctx, plan, emb, content, a, reference, i)
        unchanged(ctx, emb, before, held, f"a {a['fmt']} save ({a['how']}, {where})")
        if ctx.disk.open_fds() > nopen:
            ctx.disk.leaked()
            if ctx.disk.open_fds() > nopen:
                raise Violation("leaked-descriptor", f"{a['fmt']} save ({a['how']}, {where}) leaves files open")
        # afterwards the same save still gives the same file
        path = ctx.path(f"again{i}")
        ctx.must(save_fn(ctx, emb, a["fmt"], path), f"save {a['fmt']} again", faults=plan["faults"])
        if iosim.get(path) != reference[a["fmt"]]:
            raise Violation("retry-differs", f"after a {a['fmt']} save ({a['how']}, {where}) a new save gives other bytes")
        ctx.seen(a["fmt"], plan["spec"]["storage"]["type"], plan["spec"]["vocab"]["type"], plan["origin"], a["how"],
                 where)
    unchanged(ctx, emb, before, held, "the last save")
    if plan["origin"] != "memory" and iosim.get(srcpath) != srcdata:
        raise Violation("changed", "the file the embeddings were loaded from was modified")


def unchanged(ctx, emb, before, held, what):
    part = before.changed(emb)
    if part:
        raise Violation("changed", f"{what} changed the embeddings: {part}")
    for w, view, copy_ in held:
        if not np.array_equal(view, copy_, equal_nan=True):
            raise Violation("changed", f"{what} changed the vector handed out for {w!r}")


def attempt(ctx, plan, emb, content, a, reference, i):
    path = ctx.path(f"a{i}")
    fn = save_fn(ctx, emb, a["fmt"], path)
    how = a["how"]
    if how == "ok":
        ctx.must(fn, f"save {a['fmt']}", faults=plan["faults"])
        if iosim.get(path) != reference[a["fmt"]]:
            raise Violation("retry-differs", f"saving {a['fmt']} twice gives different bytes")
        return "ok"
    if how == "fault":
        size = len(reference[a["fmt"]])
        if a["fault"] == "enospc":
            fault = {"kind": "enospc", "budget": int(a["frac"] * size)}
        else:
            fault = {"kind": "err", "op": a["fault"], "at": int(a["frac"] * 4) if a["fault"] == "write" else 0,
                     "errno": a["errno"], "sticky": True}
        kind, val, s = ctx.run(fn, plan["faults"] + [fault], label="faulted")
        ctx.trace.append(f"{a['fmt']} with {fault}: {kind}, fired {dict(s.fired)}")
        return f"{a['fault']}:{kind}"
    if how == "intr":
        _, _, _, dry = ctx.interrupted(fn, None, a["exc"], plan["faults"], label="count")
        at = int(a["frac"] * dry.n)
        kind, val, _, intr = ctx.interrupted(fn, at, a["exc"], plan["faults"], label="interrupted")
        ctx.trace.append(f"{a['fmt']} interrupted by {a['exc']} at event {at} of {dry.n} in {intr.where}: {kind}")
        if intr.fired and kind == "ok":
            raise Violation("swallowed-interrupt", f"{a['fmt']} save: {a['exc']} in {intr.where} was swallowed")
        val = None
        return f"{a['exc']}@{intr.where}"
    opath = ctx.path(f"b{i}")
    if a["other"] == "query":
        words = content.vocab.words[:3] + ["unseen"]

        def other():
            return [None if v is None else np.array(v) for v in (emb.embedding(w) for w in words)]
    else:
        other = save_fn(ctx, emb, a["other"], opath)
    res, sc = ctx.schedule([fn, other], a["switches"], plan["faults"], label="pair")
    ctx.trace.append(f"{a['fmt']} interleaved with {a['other']}: {len(sc.history)} switches")
    for r, what in zip(res, (a["fmt"], a["other"])):
        if r[0] != "ok":
            raise Violation("unexpected-error", f"{what} interleaved with another call: {r[1]!r}")
    if iosim.get(path) != reference[a["fmt"]]:
        raise Violation("interleaving", f"a {a['fmt']} save interleaved with {a['other']} gives other bytes")
    if a["other"] == "query":
        for w, v in zip(words, res[1][1]):
            alone = emb.embedding(w)
            if (v is None) != (alone is None) or v is not None and not np.array_equal(v, alone, equal_nan=True):
                raise Violation("interleaving", f"embedding({w!r}) during a {a['fmt']} save gave another vector")
    elif iosim.get(opath) != reference[a["other"]]:
        raise Violation("interleaving", f"a {a['other']} save interleaved with {a['fmt']} gives other bytes")
    return "pair:" + a["other"] + ":" + sc.signature()


def shrink(plan):
    for at in gen.shrink_list(plan["attempts"]):
        if at:
            p = copy.deepcopy(plan)
            p["attempts"] = at
            yield p
    for i, a in enumerate(plan["attempts"]):
        if a["how"] != "ok":
            p = copy.deepcopy(plan)
            p["attempts"][i] = {"fmt": a["fmt"], "how": "ok"}
            yield p
        if a.get("switches"):
            for sw in gen.shrink_list(a["switches"]):
                p = copy.deepcopy(plan)
                p["attempts"][i]["switches"] = sw
                yield p
    if plan["origin"] != "memory":
        p = copy.deepcopy(plan)
        p["origin"] = "memory"
        yield p
    yield from shrink_faults(plan)
    used = {x for a in plan["attempts"] for x in (a["fmt"], a.get("other"))}
    for p in shrink_key_spec(plan):
        if ("fasttext" not in used or p["spec"]["vocab"]["type"] == "fasttext") and \
                ("meta" not in used or "meta" in p["spec"]):
            yield p
