"""C12: acknowledged writes in the other formats carry every word and vector, through any chain of conversions."""
import copy

import numpy as np

from ffsim import compat, gen, iosim, model, observe
from ffsim.core import TARGETS, Violation, gen_locale, gen_rofs, gen_short, same_path, shrink_faults, shrink_key_spec
from ffsim.model import short

ID = "C12"
RUNS = {"quick": 36000, "thorough": 80000}
RULE = ("a run writes generated embeddings in one format and converts them along a planned chain of formats (by the "
        "library or by ffp-convert) through a disk that splits reads and writes, comparing words and un-normalised "
        "vectors after each hop; distinct and non-trivial: (vocabulary and storage kind, norms present, chain, who "
        "converts, target form, number of words) of a chain that completed at least one write and load")
STUBS = ["system calls on simulated files: read and write lengths decided by the plan"]
ASSUMPTIONS = ["words contain no ASCII whitespace, line break or NUL byte (the formats cannot express them)",
               "vectors are compared with single precision tolerance: the formats store un-normalised vectors and "
               "loading normalises them"]


def gen_plan(rng, tier):
    first = rng.choice(compat.FORMATS)
    spec = compat.gen_compat_spec(rng, first, big=rng.random() < 0.2, minwords=1 if rng.random() < 0.9 else 0)
    chain, subword = [first], spec["vocab"]["type"] == "fasttext"
    if first != "fasttext":
        subword = False
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        nxt = rng.choice(["finalfusion", "word2vec", "text", "textdims"] + (["fasttext"] if subword else []))
        if nxt in ("word2vec", "text", "textdims"):
            subword = False
        chain.append(nxt)
    if not spec["vocab"]["words"]:
        chain = [c for c in chain if c != "text"] or ["word2vec"]
    faults = []
    if rng.random() < 0.6:
        faults.append(gen_short(rng, "short_read"))
    if rng.random() < 0.6:
        faults.append(gen_short(rng, "short_write"))
    if rng.random() < 0.02:
        spec["retype"] = rng.choice(gen.RETYPE)
    return {"spec": spec, "chain": chain, "by": rng.choice(["library", "library", "tool"]), "faults": faults,
            "media": gen_rofs(rng), "locale": gen_locale(rng), "refuse": rng.random() < 0.1,
            "target": rng.choice(TARGETS), "rtarget": rng.choice(TARGETS),
            "sep": rng.choice([None, None, None, "\t", "  "])}


class Truth:
    """Words and un-normalised vectors, with the magnitude that rounding is relative to."""
    def __init__(self, content):
        self.words = list(content.vocab.words)
        self.vecs = compat.vectors(content)
        self.vocab = content.vocab
        self.rows = np.asarray(content.storage.rows(), dtype=np.float64)
        self.scale = np.abs(self.vecs).max(1) if self.vecs.shape[1] else np.zeros(len(self.words))
        self.subword = False
        self.hops = 1

    def to_fasttext(self):
        """Rounding of the restored matrix is relative to what is added up."""
        self.subword = True
        scale = []
        for i, w in enumerate(self.words):
            idx = [k for _, k in self.vocab.subword_indices(w)]
            top = float(np.abs(self.rows[idx]).max()) if idx else 0.0
            scale.append(max(self.scale[i], top) * max(1, len(idx) / 10))
        self.scale = np.array(scale)

    def check(self, words, vecs, what):
        if list(words) != self.words:
            return f"{what}: words {short(list(words))}, expected {short(self.words)}"
        vecs = np.asarray(vecs, dtype=np.float64)
        if vecs.shape != self.vecs.shape:
            return f"{what}: vectors of shape {vecs.shape}, expected {self.vecs.shape}"
        for i, w in enumerate(self.words):
            size = float(np.sqrt((self.vecs[i]**2).sum()))
            tol = 3e-6 * self.hops * (size + self.scale[i])
            if not np.all(np.abs(vecs[i] - self.vecs[i]) <= tol):
                return (f"{what}: vector of {short(w)} is {short(vecs[i].tolist())}, "
                        f"expected {short(self.vecs[i].tolist())}")
        return None


def unnormalised(emb):
    n = len(emb.vocab)
    m = np.asarray(emb.storage[:n]).astype(np.float64)
    if emb.norms is not None:
        m = m * np.asarray(emb.norms, dtype=np.float64)[:, None]
    return m


def need(diff):
    if diff:
        raise Violation("wrong-content", diff)


def run(ctx, plan):
    ctx.locale(plan["locale"])
    try:
        emb, content = gen.build(ctx.ff, plan["spec"])
    except (TypeError, ValueError, AssertionError):
        if not plan["spec"].get("retype"):
            raise
        ctx.probe("type refused")
        return
    truth = Truth(content)
    chain = plan["chain"]
    src = None
    if plan["refuse"] and content.vocab.kind != "fasttext":
        kind, val, _ = ctx.run(ctx.writer("fasttext", emb, ctx.path("no")), plan["faults"], label="refuse")
        if kind == "ok":
            raise Violation("accepted", f"a {content.vocab.kind} vocabulary was written as a fastText file")
        ctx.probe("refused:" + content.vocab.kind)
        val = None
    for hop, fmt in enumerate(chain):
        truth.hops = hop + 1
        if fmt == "fasttext":
            truth.to_fasttext()
        before = exact(emb)
        path = ctx.path(f"h{hop}")
        what = f"hop {hop} ({'>'.join(chain[:hop + 1])})"
        if hop and plan["by"] == "tool":
            def go(a=chain[hop - 1], b=fmt, i=src, o=path):
                code, _, err = ctx.cli("convert", ["-f", a, "-t", b, i, o])
                if code:
                    raise OSError(f"exit status {code}: {err}")
            _, ws = ctx.must(go, what + ": ffp-convert", faults=plan["faults"])
        else:
            tgt = ctx.target(plan["target"], path)
            if not hop and plan["spec"].get("retype"):  # arrays of another type may be refused
                kind, val, _ = ctx.run(ctx.writer(fmt, emb, ctx.path("typed"), plan["sep"]), plan["faults"], label="typed")
                val = None
                if kind == "exc":
                    ctx.probe("type refused")
                    return
            _, ws = ctx.must(ctx.writer(fmt, emb, tgt, plan["sep"]), what + ": write", faults=plan["faults"])
        ctx.leak_check(what)
        data = iosim.get(path)
        # what the bytes say
        if fmt == "finalfusion":
            try:
                c = model.dec_finalfusion(data)
            except model.Malformed as e:
                raise Violation("bad-file", f"{what}: {e}")
            need(truth.check(c.vocab.words, compat.vectors(c), what + ", in the file"))
        else:
            try:
                raw = compat.parse(fmt, data)
            except model.Malformed as e:
                raise Violation("bad-file", f"{what}: not a valid {fmt} file: {e}")
            need(truth.check(raw.words, raw.matrix, what + ", in the file"))
            if fmt == "fasttext":
                need(check_ft(raw, truth, what))
            else:
                need(check_exact(raw.matrix, before, what))
            if not hop or plan["by"] == "library":
                need(check_layout(fmt, data, truth, plan["sep"], what))
        # what the loader says
        tgt = ctx.target(plan["rtarget"], path, write=False)
        emb, _ = ctx.must(ctx.loader(fmt, tgt), what + ": load", faults=plan["faults"] + plan["media"])
        if fmt != "finalfusion":
            d = compat.diff(emb, raw)
            if not d and plan["rtarget"] != "fd" and not same_path(emb.origin, tgt):
                d = f"origin is {emb.origin!r}, expected {tgt!r}"
            need(f"{what}, loaded: {d}" if d else None)
        need(truth.check(emb.vocab.words, unnormalised(emb), what + ", loaded"))
        for w in truth.words[:3]:
            i = truth.words.index(w)
            if not np.array_equal(np.asarray(emb[w]), np.asarray(emb.storage[i]), equal_nan=True):
                raise Violation("wrong-content", f"{what}: looking up {short(w)} gives another row")
        ctx.leak_check(what)
        ctx.probe("hop:" + fmt)
        ctx.trace.append(f"{what}: {len(data)} bytes, {ws.count['write']} writes")
        src = path
    ctx.seen(plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"], content.norms is not None, chain,
             plan["by"], plan["target"], len(truth.words))


def exact(emb):
    """The vectors as single precision numbers, and by how much rounding may change them; None: not exact."""
    if type(emb.storage).__name__ != "NdArray" or np.asarray(emb.storage).dtype.itemsize != 4:
        return None
    if emb.norms is not None and np.asarray(emb.norms).dtype.itemsize != 4:
        return None
    with np.errstate(over="ignore", invalid="ignore"):
        return unnormalised(emb).astype(np.float32), 0.0 if emb.norms is None else 1.3e-7


def check_exact(got, before, what):
    """Every component by itself: what is not scaled is written to the last digit."""
    if before is None:
        return None
    want, rel = before
    with np.errstate(over="ignore", invalid="ignore"):
        got = np.asarray(got).astype(np.float32)
        ok = (got == want) | (np.isnan(got) & np.isnan(want)) | \
            (np.abs(got.astype(np.float64) - want) <= rel * np.abs(want.astype(np.float64)) + (1.5e-45 if rel else 0))
    if ok.all():
        return None
    at = tuple(int(i) for i in np.argwhere(~ok)[0])
    return f"{what}, in the file: component {at} is {got[at]!r}, expected {want[at]!r}"


def check_layout(fmt, data, truth, sep, what):
    """What else the documentation says about the files: separators and line ends."""
    if fmt in ("text", "textdims"):
        lines = data.decode().split("\n")[fmt == "textdims":]
        for w, line in zip(truth.words, lines):
            start = w + (" " if sep is None else sep)
            if not line.startswith(start) or truth.vecs.shape[1] and line[len(start):][:1].isspace():
                return f"{what}: the line of {short(w)} starts with {short(line[:len(start) + 5])}, separator is {sep!r}"
    elif fmt == "word2vec":
        pos = data.find(b"\n") + 1
        for w in truth.words:
            pos += len(w.encode()) + 1 + 4 * truth.vecs.shape[1]
            if data[pos:pos + 1] != b"\n":
                return f"{what}: no newline after the vector of {short(w)}"
            pos += 1
    return None


def check_ft(raw, truth, what):
    v = raw.ft["vocab"]
    if (v.min_n, v.max_n, v.buckets) != (truth.vocab.min_n, truth.vocab.max_n, truth.vocab.buckets):
        return f"{what}: n-gram range and buckets {(v.min_n, v.max_n, v.buckets)}"
    if raw.ft["dims"] != truth.vecs.shape[1]:
        return f"{what}: the file states {raw.ft['dims']} dimensions"
    return observe.bits(raw.ft["buckets"].astype("<f4"), truth.rows[len(truth.words):].astype("<f4"),
                        f"{what}: subword rows")


def shrink(plan):
    for c in gen.shrink_list(plan["chain"]):
        if c and ("fasttext" not in c[1:] or c[0] == "fasttext"):
            p = copy.deepcopy(plan)
            p["chain"] = c
            yield p
    for key, val in (("locale", None), ("refuse", False), ("media", []), ("by", "library"), ("target", "str"), ("rtarget", "str"), ("sep", None)):
        if plan[key] != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    yield from shrink_faults(plan)
    for p in shrink_key_spec(plan):
        v = p["spec"]["vocab"]
        if ("fasttext" not in p["chain"] or v["type"] == "fasttext") and (v["words"] or "text" not in p["chain"]):
            yield p
