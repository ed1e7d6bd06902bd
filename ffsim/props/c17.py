"""C17: memory mapping leaves the matrix in the file."""
import copy
import os

import numpy as np

from ffsim import gen, iosim, model, observe
from ffsim.core import Violation, gen_rofs, gen_short, shrink_faults

ID = "C17"
RUNS = {"quick": 6500, "thorough": 22000}
RULE = ("a run loads embeddings with a matrix of megabytes from one simulated file several times (memory mapped or not, "
        "whole or the storage alone, by the library or a command line tool), through a disk that splits reads or "
        "refuses the mapping, and between the loads the simulator changes rows of the file in place; every read is "
        "recorded and its overlap with the matrix added up (some runs have a small matrix, which is mapped like any other, "
        "but of which buffering may read everything); distinct and non-trivial: (storage and vocabulary kind, "
        "sequence of loads and changes, kinds of attempts to write)")
STUBS = ["system calls on simulated files: read lengths and mapping errors decided by the plan",
         "the other program that changes the file in place: the simulator"]
ASSUMPTIONS = ["reading up to half of the matrix counts as buffering",
               "nothing is claimed about which pages the kernel keeps in memory"]
TOOLS = ["similar", "analogy", "select", "convert", "bucket_to_explicit"]


def gen_spec(rng):
    """A matrix of three to six megabytes with few words."""
    kind = rng.choice(["bucket", "fasttext", "simple", "explicit"])
    st = rng.choice(["nd", "nd", "pq"])
    width = rng.choice([16, 40, 64])  # bytes per row
    rows = -(-rng.randrange(3 << 20, 5 << 20) // width)
    words = gen.rng_words(rng, rng.randint(1, 5), False, uws=False)
    v = {"type": kind, "words": words, "min_n": 2, "max_n": rng.choice([3, 4])}
    if kind == "bucket":
        v["buckets"] = max(1, (rows - 1).bit_length())
    elif kind == "fasttext":
        v["buckets"] = rows
    else:  # no buckets: few long rows
        width = rng.choice([1 << 18, 1 << 19])
        v = {"type": kind, "words": [f"w{i}" for i in range(-(-rng.randrange(3 << 20, 5 << 20) // width))]}
        if kind == "explicit":
            ngrams = model.ngrams("<w1>", 2, 3)
            v.update(min_n=2, max_n=3, ngrams=ngrams, index=list(range(len(ngrams))))
        st = "nd"
    spec = {"vocab": v, "mseed": rng.randrange(2**31)}
    if st == "nd":
        spec["dims"] = width // 4
        spec["storage"] = {"type": "nd", "layout": "C"}
    else:
        spec["dims"] = width
        spec["storage"] = {"type": "pq", "layout": "C", "qlen": width, "cent": rng.choice([4, 16]),
                           "proj": rng.random() < 0.3 and width < 64, "norms": rng.random() < 0.3}
    if rng.random() < 0.5:
        spec["norms"] = {"kind": "random", "layout": "C"}
    if rng.random() < 0.5:
        spec["meta"] = gen.rng_meta(rng)
    return spec


def gen_giant(rng):
    """A mapped matrix of more than 2 GB, of which all but a few rows are a hole in the file."""
    kind = rng.choice(["bucket", "fasttext"])
    st = rng.choice(["nd", "nd", "pq"])
    exp = rng.choice([24, 25, 26, 27])
    buckets = exp if kind == "bucket" else 2**exp + rng.randrange(1000)
    width = (2**31 >> exp) + rng.choice([4, 8, 20])
    return {"giant": {"kind": kind, "buckets": buckets, "width": width, "storage": st, "seed": rng.randrange(2**31),
                      "words": gen.rng_words(rng, rng.randint(1, 4), False, uws=False),
                      "ask": gen.rng_words(rng, 3, False, uws=False), "norms": rng.random() < 0.6,
                      "rows": [rng.random() for _ in range(4)]},
            "load": rng.choice(["embeddings", "embeddings", "storage", "kind"]), "faults": gen_rofs(rng, 0.15)}


def run_giant(ctx, plan):
    g = plan["giant"]
    rs = np.random.RandomState(g["seed"])
    vocab = model.VocabC(g["kind"], g["words"], 3, 5, g["buckets"])
    n, total = len(g["words"]), vocab.bound
    subs = {w: [i for _, i in vocab.subword_indices(w)] for w in g["ask"] if w not in g["words"]}
    rows = sorted({*range(n), total - 1, n, *(int(f * total) for f in g["rows"]), *(i for v in subs.values() for i in v)})
    nd = g["storage"] == "nd"
    dims = g["width"] // 4 if nd else g["width"]
    quant = rs.standard_normal((dims, 7, 1)).astype("<f4")
    block = rs.standard_normal((len(rows), dims)).astype("<f4") if nd else rs.randint(0, 7, (len(rows), dims)).astype("u1")
    norms = np.abs(rs.standard_normal(n)).astype("<f4") if g["norms"] else None
    content = model.Content(vocab, model.NdC(block) if nd else model.PqC(quant, None, block, None), norms)
    at = {r: i for i, r in enumerate(rows)}
    values = content.storage.rows().astype(np.float64)

    def row(r):
        return values[at[r]]
    chunk = {"kind": g["storage"], "count": total, "width": g["width"], "quantizers": quant}
    items = [("vocab", content), ("giant", chunk)] + [("norms", content)] * g["norms"]
    pieces, offsets, size = model.enc_sparse(items)
    start = offsets[1] + len(model.giant_head(chunk, offsets[1]))
    pieces += [(start + r * g["width"], block[i].tobytes()) for r, i in at.items()]
    path = ctx.path("giant.fifu")
    iosim.put_sparse(path, pieces, size)
    ff = ctx.ff
    fn = {"embeddings": ff.load_finalfusion, "storage": ff.load_storage,
          "kind": ff.load_ndarray if nd else ff.load_quantized_array}[plan["load"]]
    what = f"{fn.__name__}(mmap=True) of {size} bytes"
    reads = []
    kind, val, _ = ctx.run(lambda: fn(path, mmap=True), plan["faults"], label=fn.__name__, reads=reads)
    if kind == "exc":
        raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
    got = sum(max(0, min(off + k, start + total * g["width"]) - max(off, start)) for p, off, k in reads if p == path)
    if got > total * g["width"] // 2:
        raise Violation("matrix-read", f"{what} reads {got} bytes of the matrix")
    st = val.storage if plan["load"] == "embeddings" else val
    if tuple(st.shape) != (total, dims):
        raise Violation("contents", f"{what}: shape {st.shape}, expected {(total, dims)}")

    def same(vec, want, which):
        d = observe.close(np.asarray(vec), want, which, atol=1e-4 * (np.abs(want).max() + 1e-30))
        if d:
            raise Violation("contents", f"{what}: {d}")
    for r in rows:
        same(st[r], row(r), f"row {r}")
    same(st[rows], values, "list of rows")
    same(st[total - 1:], row(total - 1)[None], "last row")
    if plan["load"] == "embeddings":
        for i, w in enumerate(g["words"]):
            same(val[w], row(i), f"vector of {w!r}")
        for w, ind in subs.items():
            if ind:
                want = sum(row(i) for i in ind)
                size = np.abs([row(i) for i in ind]).sum()
                if np.sqrt((want**2).sum()) > 1e-3 * size:
                    same(val[w], want / np.sqrt((want**2).sum()), f"vector of unknown {w!r}")
        if g["norms"] and np.asarray(val.norms).tobytes() != norms.tobytes():
            raise Violation("contents", f"{what}: norms differ")
    ctx.probe("mapped matrices of gigabytes")
    ctx.seen("giant", g["kind"], g["storage"], plan["load"], g["norms"])
    ctx.trace.append(what)
    val = st = None
    nothing_left(ctx, path, "after all embeddings were dropped")


def gen_plan(rng, tier):
    if rng.random() < 0.03:
        return gen_giant(rng)
    small = rng.random() < 0.35
    spec = gen.gen_spec(rng, odd=False, minwords=1, minrows=1, layouts=["C"]) if small else gen_spec(rng)
    rows = gen.bound(spec["vocab"])
    steps = []
    for _ in range(rng.randint(2, 5)):
        k = rng.random()
        if k < 0.55:
            step = {"do": "load", "loader": rng.choice(["embeddings", "embeddings", "storage", "kind"]),
                    "mmap": rng.choice([True, True, True, False]), "as": rng.choice(["kw", "kw", "pos"])}
            if rng.random() < 0.1:
                step["err"] = rng.choice(["ENOMEM", "EACCES", "ENODEV", "EAGAIN"])
        elif k < 0.8:
            step = {"do": "change", "row": rng.randrange(rows), "seed": rng.randrange(2**31)}
        elif k < 0.9:
            step = {"do": "scribble", "how": rng.choice(["item", "row", "vector", "whole", "slice"]),
                    "row": rng.randrange(rows)}
        elif k < 0.95 or small:
            step = {"do": "drop", "i": rng.randrange(4)}
        else:
            step = {"do": "tool", "tool": rng.choice(TOOLS)}
            if step["tool"] == "bucket_to_explicit" and spec["vocab"]["type"] not in ("bucket", "fasttext"):
                step["tool"] = "similar"
        steps.append(step)
    steps[0] = {"do": "load", "loader": rng.choice(["embeddings", "storage", "kind"]), "mmap": True, "as": "kw"}
    if rng.random() < 0.5:
        steps.append({"do": "change", "row": rng.randrange(rows), "seed": rng.randrange(2**31)})
    return {"spec": spec, "steps": steps,
            "faults": ([gen_short(rng, "short_read", True)] if rng.random() < 0.5 else []) + gen_rofs(rng, 0.15)}


def mapped(path):
    """Is some part of the file mapped into this process?"""
    with open("/proc/self/maps", encoding="utf-8", errors="replace") as f:
        return any(path in line for line in f)


class State:
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.content = gen.content_of(plan["spec"])
        self.path = ctx.path("big.fifu")
        data = model.enc_finalfusion(self.content)
        iosim.put(self.path, data)
        kinds = model.chunk_kinds(self.content)
        self.end = model.chunk_offsets(data)[kinds.index("storage") + 1]
        st = self.content.storage
        self.block = st.matrix if st.kind == "nd" else st.codes  # follows the changes to the file
        self.start = self.end - self.block.nbytes
        self.loads = []  # [object, storage, memory mapped, block at the time of the load, whole embeddings]

    def check_reads(self, reads, what):
        got = 0
        for path, off, n in reads:
            if path == self.path:
                got += max(0, min(off + n, self.end) - max(off, self.start))
        bound = self.block.nbytes // 2
        if self.block.nbytes < 1 << 20:  # buffering may read all of it
            self.ctx.probe("small matrices")
            return
        self.ctx.probe("bytes of matrices read", got)
        if got > bound:
            raise Violation("matrix-read", f"{what} reads {got} bytes of a matrix of {self.block.nbytes} bytes")

    def load(self, step):
        ff, path, mm = self.ctx.ff, self.path, step["mmap"]
        special = "load_ndarray" if self.content.storage.kind == "nd" else "load_quantized_array"
        fn = {"embeddings": ff.load_finalfusion, "storage": ff.load_storage, "kind": getattr(ff, special)}[step["loader"]]
        what = f"{fn.__name__}(mmap={mm})"
        faults = list(self.plan["faults"])
        if "err" in step:
            faults.append({"kind": "err", "op": "mmap", "at": 0, "errno": step["err"], "sticky": True})
        reads = []
        call = (lambda: fn(path, mm)) if step["as"] == "pos" else (lambda: fn(path, mmap=mm))
        if not mm and step["as"] == "kw":  # that is the default
            call = lambda: fn(path)  # noqa: E731
        kind, val, s = self.ctx.run(call, faults, label=what, reads=reads)
        if kind == "exc":
            if s.fired.get(f"{step.get('err', '').lower()}@mmap"):
                self.ctx.probe("mapping refused")
                return
            raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
        if mm and "err" not in step:
            self.check_reads(reads, what)
            self.ctx.probe("mapped loads")
        whole = step["loader"] == "embeddings"
        self.loads.append([val, val.storage if whole else val, mm and "err" not in step, self.block.copy(), whole])
        self.judge(f"after {what}")

    def judge(self, what):
        for i, (_, st, mm, then, _) in enumerate(self.loads):
            want = self.block if mm else then
            c = self.content.storage
            rows = sorted({0, len(want) // 2, len(want) - 1} | self.rows())
            now = model.NdC(want[rows]) if c.kind == "nd" else \
                model.PqC(c.quantizers, c.projection, want[rows], None if c.norms is None else c.norms[rows])
            got = np.asarray(st[rows])
            d = observe.bits(got, now.rows(), "rows") if c.kind == "nd" else \
                observe.close(got, now.rows(), "rows", atol=1e-4 * (np.abs(now.rows()).max() + 1e-30))
            if d:
                raise Violation("contents", f"{what}, load {i} (mmap={mm}): {d}; the file "
                                f"{'has' if mm else 'had'} other contents")

    def rows(self):
        return {s["row"] for s in self.plan["steps"] if "row" in s}

    def change(self, step):
        """Another program overwrites a row of the file."""
        r = step["row"]
        rs = np.random.RandomState(step["seed"])
        new = rs.randint(0, self.content.storage.quantizers.shape[1], self.block.shape[1]).astype("u1") \
            if self.content.storage.kind == "pq" else rs.standard_normal(self.block.shape[1]).astype("<f4")
        self.block = self.block.copy()
        self.block[r] = new
        with open(self.path, "r+b") as f:
            f.seek(self.start + r * new.nbytes)
            f.write(new.tobytes())
        self.ctx.disk.fired["changed in place"] += 1
        self.judge(f"after row {r} of the file was overwritten")

    def scribble(self, step):
        for i, (obj, st, mm, _, whole) in enumerate(self.loads):
            if not mm:
                continue
            r, how = step["row"], step["how"]
            before = iosim.get(self.path)
            views = self.content.storage.kind == "nd"

            def write():
                if how == "vector" and whole:
                    obj[self.content.vocab.words[0]][:] = 1
                elif how == "whole":
                    np.asarray(st)[r] = 2
                elif how == "slice":
                    np.asarray(st[r:r + 1])[:] = 3
                elif how == "item" and views:
                    st[r, 0] = 4
                else:
                    st[r][:] = 5
            kind, val, _ = self.ctx.run(write, label="scribble")
            if views and kind == "ok":
                raise Violation("writable", f"load {i}: the memory mapped storage can be written ({how})")
            if iosim.get(self.path) != before:
                raise Violation("file-changed", f"load {i}: writing to vectors ({how}) changed the file")
            self.ctx.probe("scribbled")
            self.judge(f"after an attempt to write ({how})")

    def tool(self, step):
        tool, ctx = step["tool"], self.ctx
        words = self.content.vocab.words
        lst = ctx.path("list")
        iosim.put(lst, (" ".join(words[:1] * 3) if tool == "analogy" else words[0]).encode() + b"\n")
        out = ctx.path("out")
        argv = {"similar": [self.path, lst], "analogy": [self.path, lst], "select": [self.path, out, lst],
                "convert": ["-f", "finalfusion", self.path, out], "bucket_to_explicit": [self.path, out]}[tool]
        reads = []
        # nothing but errors of the tool's own making is expected: no faults but split reads
        faults = [f for f in self.plan["faults"] if f["kind"] != "rofs"]
        kind, val, _ = ctx.run(lambda: ctx.cli(tool, ["--mmap"] + argv), faults, label=tool, reads=reads)
        if kind == "exc" or val[0] != 0:
            raise Violation("unexpected-error", f"ffp-{tool} --mmap: {val!r}")
        self.check_reads(reads, f"ffp-{tool} --mmap")
        ctx.probe("tool:" + tool)


def run(ctx, plan):
    if "giant" in plan:
        run_giant(ctx, plan)
        return
    st = State(ctx, plan)
    for step in plan["steps"]:
        do = step["do"]
        if do == "load":
            st.load(step)
        elif do == "change":
            st.change(step)
        elif do == "scribble":
            st.scribble(step)
        elif do == "tool":
            st.tool(step)
        elif st.loads:
            st.loads.pop(step["i"] % len(st.loads))
        ctx.trace.append(f"{step}: {len(st.loads)} loads alive")
        if not any(x[2] for x in st.loads):
            nothing_left(ctx, st.path, f"after {step}")
    st.loads.clear()
    nothing_left(ctx, st.path, "after all embeddings were dropped")
    ctx.seen(plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"],
             [[s.get(k) for k in ("do", "loader", "mmap", "how", "tool", "err")] for s in plan["steps"]])


def nothing_left(ctx, path, what):
    ctx.disk.leaked()
    if mapped(path):
        import gc
        gc.collect()
    if mapped(path):
        raise Violation("mapping-left", f"{what} the file is still mapped although no memory mapped embeddings are alive")
    ctx.leak_check(what)


def shrink(plan):
    if "giant" in plan:
        yield from shrink_faults(plan)
        return
    for steps in gen.shrink_list(plan["steps"]):
        if steps:
            p = copy.deepcopy(plan)
            p["steps"] = steps
            yield p
    yield from shrink_faults(plan)
    for key in ("norms", "meta"):
        if key in plan["spec"]:
            p = copy.deepcopy(plan)
            del p["spec"][key]
            yield p
