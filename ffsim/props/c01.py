"""C01: an acknowledged finalfusion save reads back identically."""
import copy
import os

from ffsim import gen, iosim, model, observe
from ffsim.core import TARGETS, Violation, gen_locale, gen_rofs, gen_short, same_path, shrink_faults, shrink_key_spec

ID = "C01"
RUNS = {"quick": 26000, "thorough": 150000}
RULE = ("a run saves one generated set of embeddings (or one of its components) through a disk that "
        "splits writes, and loads it back through a disk that splits reads; non-trivial and distinct: "
        "the (vocabulary kind, storage kind, layout, optional chunks, target form, writes made, "
        "reads made) tuple of a run that saved and read back at least one chunk")
STUBS = ["system calls on simulated files: length-limiting decided by the plan"]
ASSUMPTIONS = ["metadata values are those the toml package itself round-trips",
               "the reference decoder in ffsim/model.py states the finalfusion format"]


def gen_plan_faults(rng, huge=False):
    faults = []
    if rng.random() < 0.7:
        faults.append(gen_short(rng, "short_write", huge))
    if rng.random() < 0.7:
        faults.append(gen_short(rng, "short_read", huge))
    return faults


def gen_plan(rng, tier):
    spec = gen.gen_spec(rng, huge=0.002)
    unit = "full"
    if rng.random() < 0.25:
        unit = rng.choice(model.chunk_kinds(gen.content_of(spec)))
        if rng.random() < 0.15:
            spec, unit = gen.gen_bare(rng), "vocab"
    if rng.random() < 0.02 and "bare" not in spec:
        spec["retype"] = rng.choice(gen.RETYPE)
    return {"spec": spec, "unit": unit, "faults": gen_plan_faults(rng, "huge" in spec),
            "wtarget": rng.choice(TARGETS), "rtarget": rng.choice(TARGETS),
            "old": rng.choice([None, None, 10, 5000, 70000]),
            "again": rng.choice([None, "eager", "mmap"]), "media": gen_rofs(rng), "locale": gen_locale(rng),
            "first": gen_first(rng) if rng.random() < 0.06 and "huge" not in spec else None}


def gen_first(rng):
    """An earlier attempt to save that is disturbed."""
    how = rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "enospc", "EIO"])
    return {"how": how, "frac": rng.random()}


def first_attempt(ctx, plan, obj, content, unit, path):
    """Saves that are disturbed: if one returns normally nevertheless, the file has to be complete."""
    first = plan["first"]
    how = first["how"]
    if how in ("enospc", "EIO"):
        size = len(model.enc_finalfusion(content)) if unit == "full" else 4000
        fault = {"kind": "enospc", "budget": int(first["frac"] * size)} if how == "enospc" else \
            {"kind": "err", "op": "write", "at": int(first["frac"] * 4), "errno": "EIO", "sticky": True}
        kind, _, s = ctx.run(lambda: obj.write(path), plan["faults"] + [fault], label="disturbed")
        where = dict(s.fired)
    else:
        _, _, _, dry = ctx.interrupted(lambda: obj.write(path), None, how, plan["faults"], label="count")
        at = int(first["frac"] * dry.n)
        kind, _, _, intr = ctx.interrupted(lambda: obj.write(path), at, how, plan["faults"], label="disturbed")
        where = intr.where
    ctx.trace.append(f"first attempt ({how} at {where}): {kind}")
    ctx.probe(f"first:{kind}")
    if kind == "ok":
        verify_bytes(iosim.get(path), content, unit)



def run(ctx, plan):
    ctx.locale(plan["locale"])
    ff = ctx.ff
    try:
        emb, content = gen.build(ff, plan["spec"])
    except (TypeError, ValueError, AssertionError):
        if not plan["spec"].get("retype"):
            raise
        ctx.probe("type refused")
        return
    path = ctx.path("e.fifu")
    if plan["old"]:
        iosim.put(path, b"\xee" * plan["old"])
    unit = plan["unit"]
    obj = emb if unit == "full" else ctx.component(emb, unit)
    if plan.get("first"):
        first_attempt(ctx, plan, obj, content, unit, path)
    tgt = ctx.target(plan["wtarget"], path)
    if plan["spec"].get("retype"):  # arrays of another type may be refused
        kind, val, ws = ctx.run(lambda: obj.write(tgt), plan["faults"], label=f"save ({unit})")
        val = None
        if kind == "exc":
            ctx.probe("type refused")
            return
    else:
        _, ws = ctx.must(lambda: obj.write(tgt), f"save ({unit})", faults=plan["faults"])
    ctx.leak_check("save")
    data = iosim.get(path)
    verify_bytes(data, content, unit)
    ctx.trace.append(f"save {unit} to {plan['wtarget']}: {ws.count['write']} writes, {len(data)} bytes, {dict(ws.fired)}")
    loaded = verify_load(ctx, plan, path, content, unit)
    ctx.seen(plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"], plan["spec"]["storage"]["layout"],
             model.chunk_kinds(content), unit, plan["wtarget"], plan["rtarget"], ws.count["write"])
    # what was loaded is as good a source as the original
    if unit == "full" and plan["again"]:
        src = loaded[plan["again"]]
        path2 = ctx.path("again.fifu")
        ctx.must(lambda: src.write(path2), "save of loaded embeddings", faults=plan["faults"])
        if iosim.get(path2) != data:
            raise Violation("resave-differs", f"saving what was loaded ({plan['again']}) gives other bytes")
        ctx.probe("resaved")
    for mode, e in loaded.items():  # vocabularies know that they are equal
        if type(emb.vocab.words) is type(e.vocab.words) and not (emb.vocab == e.vocab and e.vocab == emb.vocab):
            raise Violation("wrong-content", f"{mode} load: the vocabulary does not equal the saved one")
    loaded = src = e = None
    ctx.leak_check("load")


def verify_bytes(data, content, unit):
    try:
        chunks = model.dec_chunks(data)
    except model.Malformed as e:
        raise Violation("bad-file", f"the saved file is not a complete finalfusion file: {e}")
    kinds = model.chunk_kinds(content) if unit == "full" else [unit]
    want = {"meta": content.meta, "vocab": content.vocab, "storage": content.storage, "norms": content.norms}
    if [c for c, _ in chunks] != [model.chunk_id(k, content) for k in kinds]:
        raise Violation("bad-file", f"chunks {[c for c, _ in chunks]}, expected {kinds}")
    for kind, (_, got) in zip(kinds, chunks):
        same = got.tobytes() == want[kind].tobytes() if kind == "norms" else got == want[kind]
        if not same:
            raise Violation("wrong-content", f"the {kind} chunk of the saved file holds other values")


def verify_load(ctx, plan, path, content, unit):
    out = {}
    if unit == "full":
        for mode in ("eager", "mmap"):
            tgt = ctx.target(plan["rtarget"], path, write=False)
            e, rs = ctx.must(ctx.loader("finalfusion", tgt, mode == "mmap"), f"load {mode} from {plan['rtarget']}",
                             faults=plan["faults"] + plan["media"])
            diff = observe.embeddings(e, content)
            if diff is None and plan["rtarget"] != "fd" and not same_path(e.origin, tgt):
                diff = f"origin is {e.origin!r}, expected {tgt!r}"
            if diff is None and not plan["spec"]["storage"].get("special"):
                diff = observe.lookups(e, content)
            if diff:
                raise Violation("wrong-content", f"{mode} load: {diff}")
            ctx.probe("loaded:" + mode)
            ctx.trace.append(f"load {mode}: {rs.count['read']} reads, {dict(rs.fired)}")
            out[mode] = e
    for name, kind, fn in ctx.chunk_loaders(content):
        if unit not in ("full", kind):
            continue
        tgt = ctx.target(plan["rtarget"], path, write=False)
        got, _ = ctx.must(lambda: fn(tgt), name, faults=plan["faults"] + plan["media"])
        diff = ctx.check_chunk(kind, got, content) or kind == "vocab" and observe.indices(got, content.vocab)
        if diff:
            raise Violation("wrong-content", f"{name}: {diff}")
    return out


def shrink(plan):
    for key, val in (("locale", None), ("first", None), ("old", None), ("again", None), ("wtarget", "str"), ("rtarget", "str"), ("unit", "full")):
        if plan.get(key) != val and not (key == "unit" and plan["spec"].get("bare")):
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    yield from shrink_faults(plan)
    yield from shrink_faults(plan, "media")
    for p in shrink_key_spec(plan):
        if p["unit"] in ["full"] + model.chunk_kinds(gen.content_of(p["spec"])):
            yield p
