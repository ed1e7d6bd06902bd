"""C06: a load that fails part way says so, leaves nothing behind and can be repeated."""
import copy

from ffsim import compat, gen, iosim, model, observe
from ffsim.core import TARGETS, Violation, gen_short, shrink_faults, shrink_key_spec

ID = "C06"
RUNS = {"quick": 12000, "thorough": 80000}
RULE = ("a run stores one valid file of a planned format and loads it (whole or one component, eagerly or memory "
        "mapped) once per planned disturbance: an error from the k-th read, seek, stat, open or mmap, a signal during "
        "a read, or an interrupt or allocation failure at a planned bytecode; then loads it once more undisturbed; "
        "distinct and non-trivial: (loader, vocabulary and storage kind, disturbance, ordinal or place it hit, "
        "outcome) of a load during which the disturbance fired")
STUBS = ["system calls on simulated files: read, seek, open, mmap results decided by the plan",
         "interrupts: raised by the trace function at the planned bytecode"]
ASSUMPTIONS = ["a load may give up on a signal that arrives during a read (EINTR) instead of repeating it"]


def gen_point(rng):
    p = gen_any(rng)
    if p.get("errno") == "EINTR":
        p["sticky"] = False  # a call that is interrupted for ever may be repeated for ever
    return p


def gen_any(rng):
    k = rng.random()
    if k < 0.45:
        return {"kind": "err", "op": "read", "frac": rng.random(), "errno": rng.choice(["EIO"] * 4 + ["EINTR", "EINTR", "ESTALE", "EINVAL", "EACCES", "EPERM", "ENXIO", "EISDIR", "ETIMEDOUT", "EBADF",
                                     "ENOMEM"]),
                "sticky": rng.random() < 0.5}
    if k < 0.6:
        return {"kind": "err", "op": rng.choice(["lseek", "mmap", "open", "closeread"]), "frac": rng.random(),
                "errno": rng.choice(["EIO", "ENOMEM", "EMFILE", "EINTR", "EACCES", "ENOENT", "ENODEV", "EINVAL", "ESPIPE", "EPERM", "EAGAIN", "ELOOP"]), "sticky": rng.random() < 0.5}
    return {"kind": "intr", "frac": rng.random(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}


def gen_plan(rng, tier):
    fmt = rng.choice(["finalfusion", "finalfusion", "finalfusion", "word2vec", "text", "textdims", "fasttext"])
    if fmt == "finalfusion":
        spec = gen.gen_spec(rng, maxwords=8)
    else:
        spec = compat.gen_compat_spec(rng, fmt, maxwords=8, big=rng.random() < 0.3)
    return {"spec": spec, "fmt": fmt, "style": compat.gen_style(rng), "loader": rng.randrange(64),
            "target": rng.choice(TARGETS), "points": [gen_point(rng) for _ in range(5)],
            "faults": [gen_short(rng, "short_read")] if rng.random() < 0.5 else []}


def loaders(ctx, plan, content):
    """(name, fn(target), diff(result))"""
    fmt = plan["fmt"]
    if fmt != "finalfusion":
        raw = compat.parse(fmt, compat.encode(fmt, content, plan["style"]))
        return [(f"load_{fmt}", lambda t: ctx.loader(fmt, t)(), lambda e: compat.diff(e, raw))]
    out = []
    for mm in (False, True):
        out.append((f"load_finalfusion(mmap={mm})", lambda t, m=mm: ctx.ff.load_finalfusion(t, mmap=m),
                    lambda e: observe.embeddings(e, content)))
    out += out
    for name, kind, fn in ctx.chunk_loaders(content):
        out.append((name, fn, lambda c, k=kind: ctx.check_chunk(k, c, content)))
    return out


def run(ctx, plan):
    content = gen.content_of(plan["spec"])
    path = ctx.path("e.bin")
    if plan["fmt"] == "finalfusion":
        data = model.enc_finalfusion(content)
    else:
        data = compat.encode(plan["fmt"], content, plan["style"])
    iosim.put(path, data)
    ls = loaders(ctx, plan, content)
    name, fn, diff = ls[plan["loader"] % len(ls)]

    def load():
        return fn(ctx.target(plan["target"], path, write=False))

    def load_name():  # until it is taken over, a descriptor belongs to the caller
        return fn(path)

    def judge(kind, val, what):
        if kind == "ok":
            d = diff(val)
            if d:
                raise Violation("wrong-content", f"{what}: returned normally, but {d}")
        elif not isinstance(val, (Exception, KeyboardInterrupt)):
            raise Violation("bad-failure", f"{what}: {val!r}")

    kind, val, ref = ctx.run(load, plan["faults"], label="reference")
    if kind == "exc":
        raise Violation("rejected", f"{name}: an undisturbed load fails: {type(val).__name__}: {val}")
    judge(kind, val, name)
    val = None
    for p in plan["points"]:
        if p["kind"] == "err":
            at = int(p["frac"] * max(1, ref.count[p["op"]]))
            fault = {"kind": "err", "op": p["op"], "at": at, "errno": p["errno"], "sticky": p["sticky"]}
            what = f"{name} with {p['errno']} on {p['op']} {at} of {ref.count[p['op']]}"
            if p["sticky"]:
                what += " and all later ones"
            kind, val, s = ctx.run(load, plan["faults"] + [fault], label="faulted")
            fired = any("@" in k for k in s.fired)
            where = (p["op"], p["errno"], at)
        else:
            _, _, _, dry = ctx.interrupted(load_name, None, p["exc"], plan["faults"], label="count")
            at = int(p["frac"] * dry.n)
            kind, val, _, intr = ctx.interrupted(load_name, at, p["exc"], plan["faults"], label="interrupted")
            what = f"{name} with {p['exc']} at event {at} of {dry.n} in {intr.where}"
            fired, where = intr.fired, (p["exc"], intr.where)
            if fired and kind == "ok":
                raise Violation("swallowed-interrupt", what)
        ctx.trace.append(f"{what}: fired {fired}, {kind}")
        judge(kind, val, what)
        if kind == "ok" and fired:
            ctx.probe("survived:" + p.get("op", "interrupt"))
        val = None
        ctx.leak_check(what)
        if iosim.get(path) != data:
            raise Violation("file-changed", f"{what}: the file was modified")
        if fired:
            ctx.probe("disturbed")
            ctx.seen(name, plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"], where, kind)
        # once the disturbance is over the same load succeeds
        kind, val, _ = ctx.run(load, plan["faults"], label="retry")
        if kind == "exc":
            raise Violation("no-recovery", f"after {what}: an undisturbed load fails: {type(val).__name__}: {val}")
        judge(kind, val, f"load after {what}")
        val = None
        ctx.leak_check("load after " + what)


def shrink(plan):
    for pts in gen.shrink_list(plan["points"]):
        if pts:
            p = copy.deepcopy(plan)
            p["points"] = pts
            yield p
    for key, val in (("target", "str"), ("loader", 0)):
        if plan[key] != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    yield from shrink_faults(plan)
    for p in shrink_key_spec(plan):
        v = p["spec"]["vocab"]
        if (plan["fmt"] != "fasttext" or v["type"] == "fasttext") and (plan["fmt"] != "text" or v["words"]):
            yield p
