"""C10: a query that fails or is interrupted leaves no trace."""
import copy
import os

import numpy as np

from ffsim import gen, iosim, model, observe, queries, sched
from ffsim.core import Violation, shrink_key_spec

ID = "C10"
RUNS = {"quick": 36000, "thorough": 160000}
RULE = ("a run puts a planned sequence of queries to one set of embeddings (in memory, loaded or memory mapped); each "
        "is interrupted (KeyboardInterrupt or MemoryError) at a planned bytecode, is invalid (wrong type, shape or "
        "dtype of an argument), runs interleaved with an interrupted one of another caller, or runs undisturbed; after "
        "each, embeddings and handed out vectors are compared bit by bit with before and further queries are judged "
        "against the documented answers; distinct and non-trivial: (query, vocabulary and storage kind, disturbance, "
        "place it hit, outcome)")
STUBS = ["interrupts: raised by the trace function at the planned bytecode",
         "threads: real, released one at a time by the scheduler"]
ASSUMPTIONS = ["an interrupted query may leave any contents in the out array it was given",
               "callers do not write into vectors they were handed"]
BAD = ["out-shape", "out-dims", "out-int", "out-readonly", "word-none", "word-int", "word-bytes", "default-shape",
       "vec-dims", "vec-2d", "skip-none", "row-range", "row-none", "k-neg", "k-float"]


def gen_step(rng, spec, words):
    k = rng.random()
    q = queries.gen_query(rng, spec, words)
    if k < 0.5:
        return {"how": "intr", "q": q, "frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    if k < 0.75:
        return {"how": "bad", "q": q, "bad": rng.choice(BAD)}
    if k < 0.9:
        return {"how": "pair", "q": q, "other": queries.gen_query(rng, spec, words), "at": rng.randrange(150),
                "exc": rng.choice(["KeyboardInterrupt", "MemoryError"]),
                "switches": sorted([rng.randrange(rng.choice([40, 200])), rng.randrange(2)]
                                   for _ in range(rng.randint(1, 10)))}
    return {"how": "ok", "q": q}


def gen_plan(rng, tier):
    spec = gen.gen_spec(rng, special=False, maxwords=rng.choice([3, 8]), big=rng.random() < 0.05, minrows=1,
                        layouts=["C", "C", "F", "stride", "slice"])
    if spec["storage"]["type"] == "pq":
        spec["storage"]["layout"] = "C"
    words = queries.gen_words(rng, spec)
    return {"spec": spec, "origin": rng.choice(["memory", "memory", "loaded", "mapped"]),
            "steps": [gen_step(rng, spec, words) for _ in range(rng.randint(2, 6))],
            "probes": [queries.gen_query(rng, spec, words) for _ in range(3)]}


def bad_call(emb, q, bad):
    dims, w = emb.dims, q["w"]
    if bad == "out-shape":
        return emb.embedding(w, out=np.zeros((2, dims), dtype=np.float32))
    if bad == "out-dims":
        return emb.embedding(w, out=np.zeros(dims + 1, dtype=np.float32))
    if bad == "out-int":
        return emb.embedding(w, out=np.zeros(dims, dtype=np.int32))
    if bad == "out-readonly":
        out = np.zeros(dims, dtype=np.float32)
        out.setflags(write=False)
        return emb.embedding(w, out=out)
    if bad == "word-none":
        return emb.embedding(None)
    if bad == "word-int":
        return emb[5]
    if bad == "word-bytes":
        return emb.embedding(w.encode("utf-8"))
    if bad == "default-shape":
        return emb.embedding(w, out=np.zeros(dims, dtype=np.float32), default=np.zeros(dims + 2, dtype=np.float32))
    if bad == "vec-dims":
        return emb.embedding_similarity(np.zeros(dims + 1, dtype=np.float32))
    if bad == "vec-2d":
        return emb.embedding_similarity(np.zeros((dims, 2), dtype=np.float32))
    if bad == "skip-none":
        return emb.analogy(w, w, None)
    if bad == "row-range":
        return emb.storage[emb.storage.shape[0]]
    if bad == "row-none":
        return emb.storage["x"]
    if bad == "k-neg":
        return emb.word_similarity(w, k=-1)
    if bad == "k-float":
        return emb.word_similarity(w, k=1.5)
    raise ValueError(bad)


def must_refuse(bad, ref, w, dims):
    """Whether no documented answer exists for the invalid query."""
    found = ref.idx(w) is not None
    if bad == "out-dims":
        return found and dims > 1  # a single number is spread over the array
    if bad == "out-readonly":
        return found
    if bad == "default-shape":
        return not found
    return bad in ("vec-dims", "row-range", "row-none", "word-int")


def run(ctx, plan):
    emb, content = gen.build(ctx.ff, plan["spec"])
    ref = model.Queries(content)
    path = ctx.path("e.fifu")
    if plan["origin"] != "memory":
        iosim.put(path, model.enc_finalfusion(content))
        emb, _ = ctx.must(ctx.loader("finalfusion", path, plan["origin"] == "mapped"), "load")
        os.remove(path)
    before = observe.Frozen(emb)
    v, s = plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"]
    held = [(w, emb[w], queries.snap(emb[w])) for w in content.vocab.words[:2]]
    oov = emb.embedding("abcdefgh")
    if oov is not None:
        held.append(("abcdefgh", oov, queries.snap(oov)))

    def answer(q):
        kind, val, extra = queries.guarded(ctx.ff, emb, q, through=(sched.InjectedMemoryError,))
        return q, kind, val, extra

    def right(ans, what):
        q, kind, val, extra = ans
        d = queries.judge(q, kind, val, extra, ref)
        if d:
            raise Violation("wrong-answer", f"{what}: {q}: {d}")

    for step in plan["steps"]:
        q, how = step["q"], step["how"]
        if how == "ok":
            right(answer(q), "undisturbed")
            what, where = f"{q}", "ok"
        elif how == "intr":
            _, _, _, dry = ctx.interrupted(lambda: answer(q), None, step["exc"], label="count")
            at = int(step["frac"] * dry.n)
            kind, val, _, intr = ctx.interrupted(lambda: answer(q), at, step["exc"], label="interrupted")
            what = f"{q} interrupted by {step['exc']} at event {at} of {dry.n} in {intr.where}"
            if intr.fired and kind == "ok":
                # answers of the package are data; an interrupt must come out as itself
                raise Violation("swallowed-interrupt", f"{what}: {val[1]} {queries.short(val[2])}")
            val, where = None, (step["exc"], intr.where)
        elif how == "bad":
            kind, val, _ = ctx.run(lambda: bad_call(emb, q, step["bad"]), label="bad")
            what = f"an invalid query ({step['bad']}, {q['w']!r}): {kind}"
            where = (step["bad"], kind, type(val).__name__)
            if kind == "ok" and must_refuse(step["bad"], ref, q["w"], emb.dims):
                raise Violation("accepted", f"{what} is answered with {queries.short(val)}")
            val = None
        else:
            intr = sched.Interrupt(step["at"], step["exc"])
            res, sc = ctx.schedule([lambda: answer(q), lambda: answer(step["other"])], step["switches"],
                                   label="pair", interrupts={0: intr})
            what = f"{q} interrupted at event {step['at']} in {intr.where}, interleaved with {step['other']}"
            where = ("pair", step["exc"], intr.where, sc.signature())
            if res[1][0] != "ok":
                raise Violation("unexpected-error", f"{what}: the other caller gets {res[1][1]!r}")
            right(res[1][1], what)
            if res[0][0] == "ok":
                if intr.fired:
                    raise Violation("swallowed-interrupt", what)
                right(res[0][1], what)
            if intr.fired:
                ctx.probe(f"interrupt:{step['exc']}")
            ctx.note("pair", intr.fired, intr.where)
            res = sc = None
        ctx.trace.append(what)
        ctx.seen(q["q"], v, s, how, where)
        ctx.probe("step:" + how)
        part = before.changed(emb)
        if part:
            raise Violation("changed", f"{what} changed the embeddings: {part}")
        for w, vec, was in held:
            if queries.snap(vec) != was:
                raise Violation("changed", f"{what} changed the vector handed out for {w!r}")
        for p in plan["probes"]:
            right(answer(p), "after " + what)
        part = before.changed(emb)
        if part:
            raise Violation("changed", f"queries after {what} changed the embeddings: {part}")


def shrink(plan):
    for st in gen.shrink_list(plan["steps"]):
        if st:
            p = copy.deepcopy(plan)
            p["steps"] = st
            yield p
    for pr in gen.shrink_list(plan["probes"]):
        p = copy.deepcopy(plan)
        p["probes"] = pr
        yield p
    for i, st in enumerate(plan["steps"]):
        for sw in gen.shrink_list(st.get("switches", [])):
            p = copy.deepcopy(plan)
            p["steps"][i]["switches"] = sw
            yield p
    if plan["origin"] != "memory":
        p = copy.deepcopy(plan)
        p["origin"] = "memory"
        yield p
    qs = [x for st in plan["steps"] for x in (st["q"], st.get("other"))] + plan["probes"]
    kinds = {q["q"] for q in qs if q}
    for p in shrink_key_spec(plan):
        b = gen.bound(p["spec"]["vocab"])
        if b != gen.bound(plan["spec"]["vocab"]) and (b == 0 or kinds & set(queries.ROWS)):
            continue
        if p["spec"]["storage"]["type"] != "pq" and {"stored", "reconstruct"} & set(kinds):
            continue
        if p["spec"]["vocab"]["type"] == "simple" and kinds & set(queries.SUBWORD):
            continue
        yield p
