"""C02: a save that could not store everything says so."""
import copy
import os

from ffsim import gen, iosim, model
from ffsim.core import TARGETS, Violation, gen_short, shrink_faults, shrink_key_spec

ID = "C02"
RUNS = {"quick": 30000, "thorough": 100000}
RULE = ("a run saves one generated set of embeddings (or component, or through ffp-convert, "
        "ffp-bucket-to-explicit, ffp-select) once without faults and then once per planned fault "
        "(disk full after N bytes, error on the k-th write, error on close); distinct and "
        "non-trivial: (format, fault kind, errno, write ordinal or byte offset, vocabulary and "
        "storage kind) of an attempt in which the fault really fired before the save ended")
STUBS = ["system calls on simulated files: write / close results decided by the plan"]
ASSUMPTIONS = ["data accepted by write() and close() counts as stored: the package never asks for "
               "fsync, so loss after the last close is outside its control"]
FMTS = ["finalfusion", "finalfusion", "finalfusion", "word2vec", "text", "textdims", "fasttext"]


ERRNOS = ["EIO", "ENOSPC", "EDQUOT", "EFBIG", "EIO", "ENOSPC", "EDQUOT", "EFBIG", "EPIPE", "EROFS", "EACCES", "EPERM", "ENXIO",
          "EINVAL", "ENODEV", "ETIMEDOUT", "ESTALE", "ENOENT", "EBADF"]


def gen_point(rng):
    k = rng.random()
    if k < 0.55:
        return {"kind": "enospc", "frac": rng.random(), "errno": "ENOSPC",
                "tail": rng.choice([None, None, 1, 2, 5, 17, 100])}
    if k < 0.85:
        return {"kind": "write", "frac": rng.random(), "errno": rng.choice(ERRNOS),
                "sticky": rng.random() < 0.5}
    if k < 0.93:
        return {"kind": "write", "frac": rng.random(), "errno": "EINTR", "sticky": False}
    if k < 0.95:
        return {"kind": "open", "frac": rng.random(), "errno": rng.choice(["EACCES", "EMFILE", "ENOSPC", "EROFS", "EIO", "EPERM"]),
                "sticky": rng.random() < 0.5}
    return {"kind": "close", "frac": 0, "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "sticky": False}


def gen_plan(rng, tier):
    how = rng.random()
    fmt = rng.choice(FMTS)
    tool = None
    if how < 0.2:
        tool = rng.choice(["convert", "convert", "bucket_to_explicit", "select"])
    if tool == "bucket_to_explicit":
        spec = gen.gen_spec(rng, rng.choice(["bucket", "fasttext"]))
    elif fmt == "fasttext":
        spec = gen.gen_spec(rng, "fasttext", "nd")
    else:
        spec = gen.gen_spec(rng, odd=fmt == "finalfusion")
    unit = "full"
    if fmt == "finalfusion" and tool is None and rng.random() < 0.3:
        unit = rng.choice(model.chunk_kinds(gen.content_of(spec)))
    return {"spec": spec, "fmt": fmt, "tool": tool, "unit": unit,
            "faults": [gen_short(rng, "short_write")] if rng.random() < 0.4 else [],
            "target": rng.choice(TARGETS), "points": [gen_point(rng) for _ in range(8)]}


def action(ctx, plan, emb, path, src):
    """A function that saves and returns whether success was reported."""
    if plan["tool"]:
        if plan["tool"] == "convert":
            argv = ["-f", "finalfusion", "-t", plan["fmt"], src, path]
        elif plan["tool"] == "select":
            argv = [src, path, ctx.path("words")]
        else:
            argv = [src, path]

        def go():
            code, _, _ = ctx.cli(plan["tool"], argv)
            if code != 0:
                raise OSError(f"exit status {code}")
        return go
    tgt = ctx.target(plan["target"], path)
    if plan["unit"] != "full":
        obj = ctx.component(emb, plan["unit"])
        return lambda: obj.write(tgt)
    return ctx.writer(plan["fmt"], emb, tgt)


def run(ctx, plan):
    emb, content = gen.build(ctx.ff, plan["spec"])
    path, src = ctx.path("out"), ctx.path("in.fifu")
    if plan["tool"]:
        iosim.put(src, model.enc_finalfusion(content))
        words = [w for w in content.vocab.words if w.strip() == w and w and "\n" not in w and "\r" not in w]
        iosim.put(ctx.path("words"), "".join(w + "\n" for w in words).encode())
    kind, val, ref = ctx.run(action(ctx, plan, emb, path, src), plan["faults"], label="reference")
    if kind == "exc":
        ctx.probe("reference-save-refused")
        ctx.trace.append(f"fault-free save refused: {val!r}")
        return
    want = iosim.get(path)
    nwrites = ref.count["write"]
    for p in plan["points"]:
        if p["kind"] == "enospc":
            budget = min(int(p["frac"] * (len(want) + 1)), len(want) - 1)
            if p["tail"]:
                budget = max(0, len(want) - p["tail"])
            fault = {"kind": "enospc", "budget": budget}
            where = budget
        else:
            where = int(p["frac"] * ref.count[p["kind"]]) if p["kind"] in ("write", "open") else 0
            fault = {"kind": "err", "op": p["kind"], "at": where, "errno": p["errno"], "sticky": p["sticky"]}
        if os.path.exists(path):
            os.unlink(path)
        kind, val, s = ctx.run(action(ctx, plan, emb, path, src), plan["faults"] + [fault], label="faulted")
        fired = sum(v for k, v in s.fired.items() if k == "enospc" or "@" in k)
        what = f"{plan['tool'] or 'save'} {plan['fmt']} {plan['unit']} with {p['errno']} " + \
            (f"after {where} of {len(want)} bytes" if p["kind"] == "enospc" else
             f"on {p['kind']} {where} of {nwrites}")
        ctx.trace.append(f"{what}: fired {fired}, {kind} {type(val).__name__ if kind == 'exc' else ''}")
        if kind == "ok":
            got = iosim.get(path) if os.path.exists(path) else b""
            if got != want:
                raise Violation("silent-loss", f"{what}: reported success, {len(got)} of {len(want)} bytes "
                                f"{'are' if want.startswith(got) else 'differ, not even a prefix,'} on disk")
            if p["kind"] == "close" and fired:
                raise Violation("silent-loss", f"{what}: reported success")
        elif not isinstance(val, Exception):
            raise Violation("bad-failure", f"{what}: {val!r}")
        if fired:
            ctx.probe("fired:" + p["kind"])
            ctx.seen(plan["fmt"], plan["tool"], plan["unit"], p["kind"], p["errno"], where,
                     plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"])
        del val
        ctx.leak_check(what)
    # once the faults stop, saving works again
    ctx.must(action(ctx, plan, emb, path, src), "save after the faults", faults=plan["faults"])
    if iosim.get(path) != want:
        raise Violation("no-recovery", "a later fault-free save gives other bytes")


def shrink(plan):
    for pts in gen.shrink_list(plan["points"]):
        if pts:
            p = copy.deepcopy(plan)
            p["points"] = pts
            yield p
    for key, val in (("tool", None), ("target", "str")):
        if plan[key] != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    yield from shrink_faults(plan)
    for p in shrink_key_spec(plan):
        if p["unit"] in ["full"] + model.chunk_kinds(gen.content_of(p["spec"])) and \
                (p["fmt"] != "fasttext" or p["spec"]["vocab"]["type"] == "fasttext"):
            yield p
