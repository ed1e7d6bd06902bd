"""C14: a damaged file is refused, or loads as exactly what its bytes say; it never does anything else."""
import copy
import re
import resource

import numpy as np

from ffsim import compat, gen, iosim, model, observe
from ffsim.core import Violation, gen_short, shrink_faults, shrink_key_spec
from ffsim.props import c04, c07

ID = "C14"
RUNS = {"quick": 20000, "thorough": 300000}
RULE = ("a run stores one valid file of a planned format, damages it in planned ways (flipped bits, overwritten or "
        "shifted bytes, fields set to extreme values, lost or repeated blocks, exchanged, repeated or dropped chunks, "
        "garbage at the end) and loads each damaged version with planned loaders through a disk that splits reads and "
        "with bounded memory; at the end the intact file is loaded; distinct and non-trivial: (format, loader, kinds "
        "of damage and the chunk and offset they hit, verdict of the reference reader, outcome) of a file that "
        "differs from the intact one")
STUBS = ["damaged disk: the simulator changes the stored bytes", "memory: an address space limit of 512 MB above the "
         "process's own", "system calls on simulated files: read lengths decided by the plan"]
ASSUMPTIONS = ["the formats have no checksums: a changed number or letter is what the file says from then on",
               "stated chunk lengths are only needed to skip a chunk; a loader that goes by the contents may ignore them"]
BIG = [0, 1, 2, 3, 7, 2**7, 2**8 - 1, 2**16 - 1, 2**20, 2**31 - 1, 2**31, 2**32 - 1, 2**33 + 1, 2**40, 2**61, 2**62 + 1,
       2**63 - 1, 2**63, 2**64 - 1, 2**64 - 4]


def setup(ctx):
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    lim = now + (512 << 20)
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (lim, hard))


TOKENS = ["", "nan", "-inf", "1e400", "-1e-400", "x", "0x1p3", "1,5", "1_0", "--1", "\u0661", "1e", "."]


def gen_damage(rng, fmt="finalfusion"):
    kinds = ["flip", "flip", "field", "field", "field", "field", "bytes", "drop", "repeat", "zero", "cut", "tail",
             "chunks"]
    if fmt in ("text", "textdims"):
        kinds += ["token"] * 4
    if fmt in ("word2vec", "textdims"):
        kinds += ["header"] * 4
    k = rng.choice(kinds)
    d = {"k": k, "at": rng.random()}
    if k == "token":
        d["text"] = rng.choice(TOKENS)
        return d
    if k == "header":
        d["which"] = rng.choice([0, 1, 0, 1, 2])
        d["by"] = rng.choice(["-2", "-1", "+1", "+1", "+2", "0", "1", "2147483648", "-1 ", "1_0", "+3", "x", "",
                              "9223372036854775807", "18446744073709551616"])
        return d
    if fmt == "fasttext" and rng.random() < 0.6:
        d["near"], d["delta"] = rng.randrange(13), rng.choice([0, 0, 0, 0, 0, 1, 4])
    elif rng.random() < 0.6:  # relative to a structure
        d["near"] = rng.randrange(12)
        d["delta"] = rng.choice([0, 0, 4, 4, 8, 12, 12, 16, 16, 20, 20, 24, 24, 28, 32, 36, 40, 44, -4, -8, 1, 2, 5])
    if k == "flip":
        d["bit"] = rng.randrange(8)
    elif k == "field":
        d["size"] = rng.choice([4, 4, 8] if fmt != "fasttext" else [1, 4, 4, 8, 8])
        if rng.random() < 0.5:
            d["add"] = rng.choice([1, -1, 2, -2, 4, -4, 8, 16, 256, -256])
        else:
            d["value"] = rng.choice(BIG)
    elif k == "bytes":
        d["data"] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 12))).hex()
    elif k in ("drop", "repeat", "zero", "cut"):
        d["n"] = rng.choice([1, 1, 2, 3, 4, 4, 8, 12, 16, 64, 512])
    elif k == "tail":
        d["data"] = bytes(rng.choice([0, 0, 6, 255, rng.randrange(256)]) for _ in range(rng.choice([1, 4, 11, 12, 13, 40]))
                          ).hex()
    elif k == "chunks":
        d["how"] = rng.choice(["swap", "repeat", "drop"])
        d["a"], d["b"] = rng.randrange(4), rng.randrange(4)
    return d


def gen_plan(rng, tier):
    fmt = rng.choice(["finalfusion"] * 6 + compat.FORMATS)
    if fmt == "finalfusion":
        spec = gen.gen_spec(rng, big=False, maxwords=rng.choice([2, 5, 9]))
    else:
        spec = compat.gen_compat_spec(rng, fmt, big=False, maxwords=rng.choice([2, 5, 9]))
    spec["vocab"]["words"] = list(dict.fromkeys(w[:40] for w in spec["vocab"]["words"]))
    plan = {"fmt": fmt, "spec": spec, "style": compat.gen_style(rng), "faults": [],
            "damages": [[gen_damage(rng, fmt) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(6)],
            "loaders": rng.sample(c07.LOADERS, 2), "lossy": rng.choice([None, False, True])}
    if rng.random() < 0.3:
        plan["faults"].append(gen_short(rng, "short_read"))
    return plan


def marks(fmt, data, content):
    if fmt == "finalfusion":
        return [0, 8] + model.chunk_offsets(data)[:-1]
    if fmt == "fasttext":
        flag = 92 + sum(len(compat.word_bytes(w)) + 10 for w in content.vocab.words)
        # shape and kind of the matrix, sizes of the vocabulary, configuration
        return [flag, flag + 1, flag + 9, 64, 72, 84, 0, 4, 8, 32, 40, 44, 48] + c04.row_ends(fmt, data, content)
    return [0] + c04.row_ends(fmt, data, content)


def apply(data, d, where):
    if not data:
        return data
    if d["k"] == "header":
        line, nl, rest = data.partition(b"\n")
        nums = line.split()
        for i in range(len(nums)):
            if d["which"] in (i, 2):
                add = re.fullmatch(r"[+-][12]", d["by"])
                nums[i] = str(int(nums[i]) + int(d["by"])).encode() if add and nums[i].isdigit() else d["by"].encode()
        return b" ".join(nums) + nl + rest
    if d["k"] == "token":
        tokens = list(re.finditer(rb"[^ \t\r\n]+", data))
        if not tokens:
            return data
        m = tokens[int(d["at"] * len(tokens))]
        return data[:m.start()] + d["text"].encode() + data[m.end():]
    if "near" in d:
        at = where[d["near"] % len(where)] + d["delta"]
    else:
        at = int(d["at"] * len(data))
    at = max(0, min(len(data) - 1, at))
    k = d["k"]
    if k == "flip":
        return data[:at] + bytes([data[at] ^ 1 << d["bit"]]) + data[at + 1:]
    if k == "field":
        raw = data[at:at + d["size"]]
        if "add" in d:
            v = int.from_bytes(raw, "little") + d["add"]
        else:
            v = d["value"]
        return data[:at] + (v % 2**(8 * len(raw))).to_bytes(len(raw), "little") + data[at + len(raw):]
    if k == "bytes":
        new = bytes.fromhex(d["data"])[:len(data) - at]
        return data[:at] + new + data[at + len(new):]
    if k == "drop":
        return data[:at] + data[at + d["n"]:]
    if k == "repeat":
        return data[:at + d["n"]] + data[at:]
    if k == "zero":
        n = min(d["n"], len(data) - at)
        return data[:at] + bytes(n) + data[at + n:]
    if k == "cut":
        return data[:max(0, len(data) - d["n"])]
    if k == "tail":
        return data + bytes.fromhex(d["data"])
    # whole chunks
    starts = where[2:]
    if len(starts) < 2 or starts[-1] >= len(data):
        return data
    ends = starts[1:] + [len(data)]
    parts = [data[a:b] for a, b in zip(starts, ends)]
    a, b = d["a"] % len(parts), d["b"] % len(parts)
    if d["how"] == "swap":
        parts[a], parts[b] = parts[b], parts[a]
    elif d["how"] == "repeat":
        parts.insert(a, parts[b])
    else:
        parts.pop(a)
    return data[:starts[0]] + b"".join(parts)


def damaged(data, ds, where, fmt):
    for d in ds:
        if d["k"] == "chunks" and fmt != "finalfusion":
            continue
        data = apply(data, d, where)
    return data


def usable(ctx, emb, what):
    """Words can be looked up, or the lookup says why not."""
    for w in list(emb.vocab.words)[:3] + ["unknownword", ""]:
        k, got, _ = ctx.run(lambda w=w: emb.embedding(w), label="lookup", quiet=True)
        if k == "exc":
            continue
        if got is not None and (not isinstance(got, np.ndarray) or got.shape != (emb.storage.shape[1],)):
            raise Violation("inconsistent", f"{what}: looking up {w!r} gives {model.short(got)}")


def structure(emb):
    n = len(emb.vocab)
    if list(emb.vocab.words) != list(emb.vocab) or len(set(emb.vocab.words)) != n:
        return "words are repeated or not what iteration gives"
    if emb.vocab.upper_bound != emb.storage.shape[0] or len(emb.storage) != emb.storage.shape[0]:
        return f"vocabulary for {emb.vocab.upper_bound} rows, storage of shape {emb.storage.shape}"
    if emb.norms is not None and emb.norms.shape != (n,):
        return f"{n} words, norms of shape {emb.norms.shape}"
    return None


def check_storage(got, want):
    return observe.storage(got, want, values=want.kind == "nd" or fine(want))


def fine(pq):
    """Can the rows be compared?"""
    parts = [a for a in (pq.quantizers, pq.projection, pq.norms) if a is not None]
    return pq.in_range() and all(np.all(np.isfinite(a)) and (not a.size or np.abs(a).max() < 1e9) for a in parts)


def compare_meta(m, want):
    if (m is None) != (want is None):
        return f"metadata {m!r}, expected {want!r}"
    if m is not None and repr(sorted(m.items(), key=repr)) != repr(sorted(want.items(), key=repr)):
        return f"metadata {model.short(dict(m))}, expected {model.short(want)}"
    return None


def load_all(ctx, plan, path, image, mmap):
    what = f"load_finalfusion(mmap={mmap})"
    kind, got, _ = ctx.run(ctx.loader("finalfusion", path, mmap), plan["faults"], label=what, quiet=True)
    if kind == "exc":
        return what, kind, got, None
    try:
        want = model.loose_finalfusion(image)
    except model.Malformed as e:
        return what, kind, got, f"returned normally, although: {e}"
    d = structure(got) or observe.vocab(got.vocab, want.vocab) or check_storage(got.storage, want.storage) or \
        observe.norms(got.norms, want.norms) or compare_meta(got.metadata, want.meta)
    if not d:
        usable(ctx, got, what)
    return what, kind, got, d


def load_part(ctx, plan, path, image, name):
    base, _, mm = name.partition("/")
    fn = getattr(ctx.ff, base)
    kw = {"mmap": bool(mm)} if base in ("load_storage", "load_ndarray", "load_quantized_array") else {}
    kind, got, _ = ctx.run(lambda: fn(path, **kw), plan["faults"], label=name, quiet=True)
    if kind == "exc":
        return name, kind, got, None
    try:
        want = model.loose_component(image, c07.IDS[base])
    except model.Malformed as e:
        return name, kind, got, f"returned normally, although: {e}"
    if isinstance(want, model.VocabC):
        d = observe.vocab(got, want)
    elif isinstance(want, (model.NdC, model.PqC)):
        d = check_storage(got, want)
    elif isinstance(want, dict):
        d = compare_meta(got, want)
    else:
        d = observe.norms(got, want)
    return name, kind, got, d


def load_compat(ctx, plan, path, image):
    what = "load_" + plan["fmt"]
    kind, got, _ = ctx.run(ctx.loader(plan["fmt"], path, lossy=plan["lossy"]), plan["faults"], label=what, quiet=True)
    if kind == "exc":
        return what, kind, got, None
    d = structure(got)
    try:
        raw = compat.parse(plan["fmt"], image, plan["lossy"])
    except model.Malformed as e:
        if plan["fmt"] != "textdims" or not str(e).startswith("'utf-8'"):
            return what, kind, got, f"returned normally, although: {e}"
        ctx.probe("malformed UTF-8 behind the last row")
        raw = None
    m = raw if raw is None else raw.matrix if raw.ft is None else raw.ft["matrix"]
    if not d and raw is not None and np.all(np.isfinite(m)) and np.abs(m).max(initial=0) < 1e15:
        d = compat.diff(got, raw, damaged=True)
    if not d:
        usable(ctx, got, what)
    return what, kind, got, d


def run(ctx, plan):
    _, content = gen.build(ctx.ff, plan["spec"])
    fmt = plan["fmt"]
    data = model.enc_finalfusion(content) if fmt == "finalfusion" else compat.encode(fmt, content, plan["style"])
    data = bytes(data)
    where = marks(fmt, data, content)
    path = ctx.path("e.bin")
    for ds in plan["damages"]:
        image = damaged(data, ds, where, fmt)
        iosim.put(path, image)
        if fmt == "finalfusion":
            jobs = [lambda m=m: load_all(ctx, plan, path, image, m) for m in (False, True)] + \
                [lambda n=n: load_part(ctx, plan, path, image, n) for n in plan["loaders"]]
        else:
            jobs = [lambda: load_compat(ctx, plan, path, image)]
        for job in jobs:
            what, kind, got, d = job()
            if kind == "exc" and not isinstance(got, Exception):
                raise Violation("bad-failure", f"{what}: {got!r}")
            if d:
                raise Violation("wrong-content", f"{what} of a {fmt} file damaged by {ds}: {d}")
            got = None
            ctx.leak_check(what)
            ctx.note(what, kind)
            ctx.probe(f"{what.partition('(')[0]}:{kind}")
            if image != data:
                ctx.seen(fmt, what, [(x["k"], x.get("near"), x.get("delta"), x.get("size"), x.get("value")) for x in ds],
                         kind)
        ctx.trace.append(f"{ds}: {len(image)} bytes")
    # the intact file is not affected by anything that happened before
    iosim.put(path, data)
    if fmt == "finalfusion":
        got, _ = ctx.must(ctx.loader(fmt, path), "load of the intact file", faults=plan["faults"])
        d = observe.embeddings(got, content)
    else:
        got, _ = ctx.must(ctx.loader(fmt, path), "load of the intact file", faults=plan["faults"])
        d = compat.diff(got, compat.parse(fmt, data))
    if d:
        raise Violation("wrong-content", f"the intact {fmt} file after loading damaged ones: {d}")


def shrink(plan):
    for ds in gen.shrink_list(plan["damages"]):
        if ds:
            p = copy.deepcopy(plan)
            p["damages"] = ds
            yield p
    for i, ds in enumerate(plan["damages"]):
        for sub in gen.shrink_list(ds):
            if sub:
                p = copy.deepcopy(plan)
                p["damages"][i] = sub
                yield p
    for ls in gen.shrink_list(plan["loaders"]):
        p = copy.deepcopy(plan)
        p["loaders"] = ls
        yield p
    yield from shrink_faults(plan)
    for p in shrink_key_spec(plan):
        v = p["spec"]["vocab"]
        if (plan["fmt"] != "fasttext" or v["type"] == "fasttext") and (plan["fmt"] != "text" or v["words"]):
            yield p
