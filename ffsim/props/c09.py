"""C09: any number of callers may query embeddings at the same time; every answer is right and stays right."""
import copy
import os

from ffsim import gen, iosim, model, observe, queries
from ffsim.core import Violation, shrink_key_spec

ID = "C09"
RUNS = {"quick": 8000, "thorough": 80000}
RULE = ("a run lets 1 to 4 callers put planned sequences of read-only queries to the same embeddings (built in memory, "
        "loaded, or memory mapped while the file is later removed), switching between callers at planned bytecodes; "
        "every answer is judged against the documented meaning in double precision, and compared again after all "
        "callers ended; distinct and non-trivial: (storage and vocabulary kind, origin, interleaving signature) with "
        "at least one context switch, plus (query kind and options, vocabulary and storage kind, known or unknown "
        "word)")
STUBS = ["threads: real, released one at a time by the scheduler at planned bytecodes",
         "removal of the mapped file: performed by the simulator"]
ASSUMPTIONS = ["callers write only into lists they were handed and into vectors that were computed or picked for them, "
               "not into views of the matrix",
               "answers are compared with single precision tolerance; sums that cancel to nearly zero are not judged"]


def gen_spec(rng, huge=0.0):
    spec = gen.gen_spec(rng, special=False, maxwords=rng.choice([3, 8, 12]), big=rng.random() < 0.1, minrows=1,
                        layouts=["C", "C", "F", "stride", "slice", "ro"], huge=huge)
    if spec["storage"]["type"] == "pq":
        spec["storage"]["layout"] = "C"
    return spec


ORIGINS = ["memory", "loaded", "mapped"]


def gen_plan(rng, tier):
    spec = gen_spec(rng, 0.0025)
    words = queries.gen_words(rng, spec)
    older = []
    if rng.random() < 0.08 and "huge" not in spec:  # embeddings that were in use before and are gone
        for _ in range(rng.randint(1, 5)):
            old = gen_spec(rng) if rng.random() < 0.5 else \
                dict(copy.deepcopy(spec), mseed=rng.randrange(2**31), vocab=dict(
                    spec["vocab"], words=spec["vocab"]["words"][1:] + spec["vocab"]["words"][:1]))
            older.append({"spec": old, "origin": rng.choice(ORIGINS),
                          "qs": [queries.gen_query(rng, old, words) for _ in range(rng.randint(2, 8))]})
    n = rng.choice([1, 2, 2, 3, 3, 4])
    callers = [[queries.gen_query(rng, spec, words) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    if n > 1 and rng.random() < 0.3:  # the same question from everyone
        callers = [copy.deepcopy(callers[0]) for _ in range(n)]
    if "huge" in spec:
        n, callers = 1, [callers[0]]
        for _ in range(2):
            q = queries.gen_query(rng, spec, words, rng.choice(["similar", "analogy", "vecsim"]))
            q["k"] = rng.choice([q["k"], 100, 999, 1000, 1025, len(spec["vocab"]["words"]) // 2])
            callers[0].append(q)
    elif rng.random() < 0.012:  # one caller asks for a long time, for ever new words
        n, words = 1, queries.gen_words(rng, spec, 400)
        callers = [[queries.gen_query(rng, spec, words) for _ in range(rng.choice([150, 300, 600]))]]
    span = rng.choice([30, 100, 300, 1000])
    return {"spec": spec, "origin": rng.choice(ORIGINS), "older": older, "callers": callers,
            "switches": sorted([rng.randrange(span), rng.randrange(n)] for _ in range(rng.randint(2, 30)))
            if n > 1 else [], "repeat": rng.random() < 0.3}


def ask(ctx, emb, qs):
    out = []
    for q in qs:
        kind, val, extra = queries.guarded(ctx.ff, emb, q)
        if q.get("scribble"):
            val = queries.scribble(emb, q, kind, val)
        out.append((q, kind, val, extra, queries.snap(val)))
    return out


def check(ctx, answers, ref, what):
    for q, kind, val, extra, _ in answers:
        d = queries.judge(q, kind, val, extra, ref)
        if d:
            raise Violation("wrong-answer", f"{what}: {q}: {d}")


def make(ctx, plan):
    emb, content = gen.build(ctx.ff, plan["spec"])
    ref = model.Queries(content)
    path = ctx.path("e.fifu")
    if plan["origin"] != "memory":
        iosim.put(path, model.enc_finalfusion(content))
        emb, _ = ctx.must(ctx.loader("finalfusion", path, plan["origin"] == "mapped"), "load")
        os.remove(path)
    return emb, ref


def ask_old(ctx, old, what):
    emb, ref = make(ctx, old)
    kind, val, _ = ctx.run(lambda: ask(ctx, emb, old["qs"]), label="older")
    if kind == "exc":
        raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
    check(ctx, val, ref, what)
    ctx.probe("older")


def run(ctx, plan):
    for i, old in enumerate(plan.get("older", ())):
        ask_old(ctx, old, f"embeddings {i}, which are gone later")
    emb, ref = make(ctx, plan)
    before = observe.Frozen(emb)
    v, s = plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"]
    callers = plan["callers"]
    rounds = 2 if plan["repeat"] else 1
    for rnd in range(rounds):
        what = f"{len(callers)} callers, round {rnd}"
        if len(callers) == 1:
            kind, val, _ = ctx.run(lambda: ask(ctx, emb, callers[0]), label="alone")
            res = [(kind, val)]
        else:
            res, sc = ctx.schedule([lambda qs=qs: ask(ctx, emb, qs) for qs in callers], plan["switches"],
                                   label="callers")
            ctx.trace.append(f"{what}: {len(sc.history)} switches")
            if sc.history:
                ctx.seen("schedule", v, s, plan["origin"], sc.signature())
        answers = []
        for kind, val in res:
            if kind == "exc":
                raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
            answers += val
        check(ctx, answers, ref, what)
        for q, kind, val, extra, was in answers:
            ctx.note(q["q"], kind)
            ctx.probe("query:" + q["q"])
            ctx.seen(q["q"], q.get("out"), q.get("default"), q.get("form"), q.get("other"), q.get("as"), q.get("outarr"),
                     v, s, q["w"] in ref.index, kind)
            if queries.snap(val) != was:
                raise Violation("answer-changed", f"{what}: the answer to {q} was changed by later queries")
        part = before.changed(emb)
        if part:
            raise Violation("changed", f"{what}: queries changed the embeddings: {part}")


def shrink(plan):
    c = plan["callers"]
    for lst in gen.shrink_list(plan.get("older") or []):
        p = copy.deepcopy(plan)
        p["older"] = lst
        yield p
    for i, old in enumerate(plan.get("older", ())):
        for lst in gen.shrink_list(old["qs"]):
            p = copy.deepcopy(plan)
            p["older"][i]["qs"] = lst
            yield p
    for i in range(len(c)):
        if len(c) > 1:
            p = copy.deepcopy(plan)
            p["callers"].pop(i)
            p["switches"] = [[a, b % (len(c) - 1)] for a, b in p["switches"]] if len(c) > 2 else []
            yield p
        for lst in gen.shrink_list(c[i]):
            if lst:
                p = copy.deepcopy(plan)
                p["callers"][i] = lst
                yield p
        for j, q in enumerate(c[i]):
            if q.get("scribble"):
                p = copy.deepcopy(plan)
                p["callers"][i][j].pop("scribble")
                yield p
    for sw in gen.shrink_list(plan["switches"]):
        p = copy.deepcopy(plan)
        p["switches"] = sw
        yield p
    for key, val in (("origin", "memory"), ("repeat", False)):
        if plan[key] != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    for p in shrink_key_spec(plan):
        if p["spec"]["storage"]["type"] != "pq" and any(q["q"] in ("stored", "reconstruct") for qs in c for q in qs):
            continue
        if gen.bound(p["spec"]["vocab"]) == gen.bound(plan["spec"]["vocab"]) or \
                not any(q["q"] in queries.ROWS for qs in c for q in qs) and gen.bound(p["spec"]["vocab"]):
            if p["spec"]["vocab"]["type"] != "simple" or \
                    not any(q["q"] in queries.SUBWORD for qs in c for q in qs):
                yield p
