"""C11: after any history of operations, embeddings and files are what the completed operations made them."""
import copy

import numpy as np

from ffsim import gen, iosim, model, observe, queries, sched
from ffsim.core import Violation, shrink_key_spec

ID = "C11"
RUNS = {"quick": 54000, "thorough": 300000}
RULE = ("a run applies a planned history of operations (set or clear norms and metadata, with valid and invalid "
        "values, change metadata, build further embeddings from shared parts, save whole or in part, load eagerly or "
        "memory mapped, convert to explicit n-grams, query, drop) to a growing set of embeddings and files, some of them "
        "hit by a disk fault or an interrupt at a planned bytecode; after every operation all embeddings, and every "
        "file once read back, are compared with a reference model that applies completed operations only; distinct "
        "and non-trivial: (sequence of operation kinds and outcomes)")
STUBS = ["system calls on simulated files: write and read results decided by the plan",
         "interrupts: raised by the trace function at the planned bytecode"]
ASSUMPTIONS = ["a file is not overwritten while embeddings are mapped to it",
               "a file whose save failed holds no promise, except that it is not taken for something else (C03)"]
OPS = ["norms", "norms", "norms", "meta", "meta", "metaset", "share", "save", "save", "save", "part", "load", "load",
       "load", "partload", "partload", "partload", "explicit", "query", "query", "query", "construct", "new", "drop"]


def gen_op(rng, words):
    op = {"op": rng.choice(OPS), "e": rng.randrange(8), "f": rng.choice([0, 0, 0, 1, 2]), "seed": rng.randrange(2**31)}
    k = op["op"]
    if k == "norms":
        op["kind"] = rng.choice(["ok", "ok", "ok", "none", "short", "long", "f64", "f16", "int", "2d", "array", "list",
                                 "be", "scalar"])
    elif k == "meta":
        op["kind"] = rng.choice(["ok", "ok", "none", "dict", "str", "empty"])
        op["val"] = gen.rng_meta(rng)
    elif k == "metaset":
        op["key"], op["val"] = rng.choice(["k", "dims", "ß"]), rng.choice([1, "x", [1, 2], True])
    elif k == "load":
        op["mmap"] = rng.random() < 0.4
    elif k == "part":
        op["part"] = rng.choice(["vocab", "storage", "norms", "meta"])
    elif k == "partload":
        op["part"] = rng.choice(["vocab", "storage", "norms", "meta"])
        op["mmap"] = rng.random() < 0.4
        op["special"] = rng.random() < 0.5  # the loader for just this kind
        op["use"] = rng.random() < 0.5  # in embeddings together with the parts of others
    elif k == "share":
        op["norms"], op["meta"] = rng.random() < 0.5, rng.choice(["none", "new", "same", "same"])
    elif k == "construct":
        op["kind"] = rng.choice(["rows", "rows-", "norms", "norms-", "norms2d", "types", "f64", "meta", "words", "vocab",
                                 "projection", "qnorms", "qnorms-", "codes", "codes-", "codes1", "indexer", "ngrams",
                                 "gaps", "missing", "range", "range0"])
    elif k == "query":
        op["w"] = rng.choice(words)
        op["ask"] = rng.choice(["lookup", "lookup", "similar", "analogy"])
        op["ws"] = [rng.choice(words) for _ in range(3)]
        op["k"] = rng.choice([None, 1, 3, 20])
    elif k == "new":
        op["spec"] = gen_spec(rng)
    r = rng.random()
    if r < 0.2:
        op["intr"] = rng.random()
        op["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
    elif r < 0.35 and k in ("save", "part"):
        op["fault"] = rng.choice(["enospc", "write", "close", "open"])
        op["frac"] = rng.random()
    elif r < 0.35 and k in ("load", "partload"):
        op["fault"] = rng.choice(["read", "open", "lseek"])
        op["frac"] = rng.random()
    return op


def gen_spec(rng):
    spec = gen.gen_spec(rng, special=False, maxwords=rng.choice([2, 4, 8]), big=rng.random() < 0.05, minrows=1,
                        minwords=1)
    if spec["storage"]["type"] == "pq":
        spec["storage"]["layout"] = "C"
    return spec


def gen_plan(rng, tier):
    spec = gen_spec(rng)
    words = queries.gen_words(rng, spec)
    n = rng.choice([3, 6, 10, 16])
    if rng.random() < 0.02:
        n = rng.choice([40, 80])
    ops = [gen_op(rng, words) for _ in range(n)]
    if rng.random() < 0.04:  # embeddings come and go, the same question is put to each of them
        base = {"f": 0, "e": 1, "seed": rng.randrange(2**31)}
        asks = [dict(base, op="query", w=rng.choice(words), ask=rng.choice(["lookup", "similar"]), ws=[], k=3)
                for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(2, 6)):
            ops += [dict(base, op="new", spec=gen_spec(rng)), *copy.deepcopy(asks), dict(base, op="drop")]
    return {"spec": spec, "ops": ops}


class State:
    def __init__(self):
        self.live = []  # (embeddings, content, path it is mapped to or None)
        self.files = {}  # name -> ("whole", content) | ("part", kind, content) | ("broken", candidates)


def snapshot(c):
    return model.Content(c.vocab, c.storage, c.norms, copy.deepcopy(c.meta))


def run(ctx, plan):
    ff = ctx.ff
    st = State()
    emb, content = gen.build(ff, plan["spec"])
    st.live.append([emb, content, None])
    log = []
    for i, op in enumerate(plan["ops"]):
        what = f"operation {i} ({op['op']}{' ' + op['kind'] if 'kind' in op else ''})"
        outcome = step(ctx, ff, st, op, what)
        ctx.trace.append(f"{what}: {outcome}")
        ctx.probe(f"op:{op['op']}:{outcome.split(' ')[0]}")
        log.append((op["op"], op.get("kind"), outcome))
        check_all(st, f"after {what}: {outcome}")
    for name in sorted(st.files):
        check_file(ctx, st, name, "at the end")
    ctx.seen(plan["spec"]["vocab"]["type"], plan["spec"]["storage"]["type"], log)


def check_all(st, what):
    for j, (e, c, _) in enumerate(st.live):
        d = observe.embeddings(e, c)
        if d:
            raise Violation("state", f"{what}: embeddings {j}: {d}")


def check_file(ctx, st, name, what):
    rec = st.files[name]
    path = ctx.path(name)
    if rec[0] == "whole":
        try:
            got = model.dec_finalfusion(iosim.get(path))
        except model.Malformed as e:
            raise Violation("file", f"{what}: {name} is not a complete finalfusion file: {e}")
        d = rec[1].diff(got)
        if d:
            raise Violation("file", f"{what}: {name}: {d}")


def attempt(ctx, op, fn, counts=None):
    """("ok", value) or ("exc", exception); sets op outcome for injected trouble."""
    if "intr" in op:
        intr = sched.Interrupt(None, op["exc"])
        # the number of events is not known beforehand (operations are not repeatable): aim into a window
        at = int(op["intr"] * op["intr"] * 400)
        kind, val, s, intr = ctx.interrupted(fn, at, op["exc"], label=op["op"])
        return kind, val, intr.fired
    faults = []
    if "fault" in op:
        if op["fault"] == "enospc":
            faults = [{"kind": "enospc", "budget": int(op["frac"] * op["frac"] * 3000)}]
        else:
            name = {"close": "close"}.get(op["fault"], op["fault"])
            faults = [{"kind": "err", "op": name, "at": int(op["frac"] * 4) if name in ("read", "write", "lseek") else 0,
                       "errno": "EIO", "sticky": True}]
    kind, val, s = ctx.run(fn, faults, label=op["op"])
    return kind, val, bool(s.fired)


def norms_for(ff, op, n):
    rs = np.random.RandomState(op["seed"])
    k = op["kind"]
    size = n + 1 if k == "long" else n - 1 if k == "short" else n
    a = (rs.rand(size) * 3 + 0.5).astype("<f4")
    want = a
    if k == "f64":
        a = a.astype(np.float64)
    elif k == "f16":
        a = a.astype(np.float16)
        want = a.astype("<f4")
    elif k == "int":
        a = np.arange(1, n + 1)
        want = a.astype("<f4")
    elif k == "2d":
        a = a.reshape(1, -1)
    elif k == "be":
        a = a.astype(">f4")
    elif k == "scalar":
        a = a[:1].reshape(())
    return a, want


# what a careful caller may rely on being refused
REFUSED = {"short", "long", "2d", "array", "list", "scalar"}


def step(ctx, ff, st, op, what):
    live = st.live[op["e"] % len(st.live)]
    emb, c, _ = live
    n = len(c.vocab.words)
    k = op["op"]
    name = f"f{op['f']}"

    def settle(kind, val, fired, apply, refused=False):
        """Common outcome rules of an operation that changes `emb` only."""
        if kind == "ok":
            if refused:
                raise Violation("accepted", f"{what} was accepted")
            if apply:
                apply()
            return "done"
        if not fired and not refused:
            raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
        if not isinstance(val, (Exception, KeyboardInterrupt)):
            raise Violation("bad-failure", f"{what}: {val!r}")
        return f"refused ({type(val).__name__})"

    if k == "norms":
        if op["kind"] == "none":
            def do():
                emb.norms = None
            want = None
        else:
            arr, want = norms_for(ff, op, n)

            def do():
                if op["kind"] == "array":
                    emb.norms = arr
                elif op["kind"] == "list":
                    emb.norms = [float(x) for x in arr]
                else:
                    emb.norms = ff.Norms(arr)
        kind, val, fired = attempt(ctx, op, do)

        def apply():
            c.norms = None if want is None else np.ascontiguousarray(want, dtype="<f4")
        optional = op["kind"] in ("f64", "f16", "int")  # may be refused; if accepted it must be right
        if kind == "exc" and (optional or fired):
            # an interrupted assignment happened or did not happen
            if fired and observe.norms(emb.norms, want) is None:
                apply()
            return f"refused ({type(val).__name__})"
        return settle(kind, val, fired, apply, op["kind"] in REFUSED)
    if k == "meta":
        want = None if op["kind"] == "none" else {} if op["kind"] == "empty" else copy.deepcopy(op["val"])

        def do():
            if op["kind"] == "none":
                emb.metadata = None
            elif op["kind"] == "dict":
                emb.metadata = dict(want)
            elif op["kind"] == "str":
                emb.metadata = "metadata"
            else:
                emb.metadata = ff.Metadata(copy.deepcopy(want))
        before = emb.metadata
        kind, val, fired = attempt(ctx, op, do)

        def apply():
            c.meta = want
        if kind == "exc" and fired:
            # an equal object is still another one: an entry set in it is not set in what it replaced
            if emb.metadata is not before and observe.meta(emb.metadata, want) is None:
                apply()
            return "interrupted"
        return settle(kind, val, fired, apply, op["kind"] in ("dict", "str"))
    if k == "metaset":
        if c.meta is None:
            return "none"
        emb.metadata[op["key"]] = op["val"]
        c.meta[op["key"]] = op["val"]
        return "done"
    if k == "share":
        if len(st.live) > 5:
            return "none"
        norms = emb.norms if op["norms"] else None
        meta, cmeta = None, None
        if op["meta"] == "new":
            meta, cmeta = ff.Metadata({"shared": 1}), {"shared": 1}
        elif op["meta"] == "same":
            meta, cmeta = emb.metadata, c.meta  # one object in both: an entry set in one is set in the other
        kind, val, fired = attempt(ctx, op, lambda: ff.Embeddings(emb.storage, emb.vocab, norms, meta))
        return settle(kind, val, fired, lambda: st.live.append(
            [val, model.Content(c.vocab, c.storage, c.norms if op["norms"] else None, cmeta), live[2]]))
    if k == "new":
        if len(st.live) > 5:
            return "none"
        kind, val, fired = attempt(ctx, op, lambda: gen.build(ff, op["spec"]))
        return settle(kind, val, fired, lambda: st.live.append([*val, None]))
    if k == "drop":
        if len(st.live) == 1:
            return "none"
        st.live.remove(live)
        return "done"
    if k == "construct":
        return construct(ctx, ff, op, emb, c, what)
    if k in ("save", "part"):
        if any(l[2] == name for l in st.live):
            name = f"g{op['f']}"  # somebody is mapped to it
            if any(l[2] == name for l in st.live):
                return "none"
        part = op.get("part")
        if part == "norms" and c.norms is None or part == "meta" and c.meta is None:
            return "none"
        path = ctx.path(name)
        fn = (lambda: emb.write(path)) if part is None else (lambda: ctx.component(emb, part).write(path))
        kind, val, fired = attempt(ctx, op, fn)
        snap = snapshot(c)
        if kind == "ok":
            if fired and op.get("fault") in ("enospc", "write", "close"):
                raise Violation("silent-loss", f"{what} returned normally although the disk refused data")
            st.files[name] = ("whole", snap) if part is None else ("part", part, snap)
            if part is None:
                check_file(ctx, st, name, "after " + what)
            return "done"
        if not fired:
            raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
        old = st.files.get(name)
        cands = [x for x in (old, ("whole", snap) if part is None else ("part", part, snap)) if x]
        if old and old[0] == "broken":
            cands = old[1] + cands[1:]
        st.files[name] = ("broken", cands)
        return f"failed ({type(val).__name__})"
    if k == "partload":
        return do_partload(ctx, ff, st, op, name, what)
    if k == "load":
        return do_load(ctx, ff, st, op, name, what)
    if k == "explicit":
        if len(st.live) > 5:
            return "none"
        kind, val, fired = attempt(ctx, op, emb.bucket_to_explicit)
        if c.vocab.kind not in ("bucket", "fasttext"):
            if kind == "ok":
                raise Violation("accepted", f"{what} of a {c.vocab.kind} vocabulary")
            return f"refused ({type(val).__name__})"

        def apply():
            d = queries.judge_explicit(val, model.Queries(c))
            if d:
                raise Violation("state", f"{what}: {d}")
            ng = list(val.vocab.subword_indexer.ngrams)
            idx = dict(val.vocab.subword_indexer.ngram_index)
            voc = model.VocabC("explicit", c.vocab.words, c.vocab.min_n, c.vocab.max_n, None, ng, [idx[g] for g in ng])
            st.live.append([val, model.Content(voc, model.NdC(np.array(val.storage)),
                                               None if c.norms is None else np.array(c.norms), None), None])
        return settle(kind, val, fired, apply)
    # query
    ask = op.get("ask", "lookup")
    if ask == "lookup":
        q = {"q": "norm" if c.norms is not None else "embedding", "w": op["w"], "out": None, "default": False}
    else:
        q = {"q": ask, "w": op["w"], "k": op["k"], "ws": op["ws"]}

    def ask():
        return queries.guarded(ff, emb, q, through=(sched.InjectedMemoryError,))
    kind, val, fired = attempt(ctx, op, ask)
    if kind == "exc":
        if not fired:
            raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
        return "interrupted"
    d = queries.judge(q, *val, model.Queries(c))
    if d:
        raise Violation("state", f"{what}: {q}: {d}")
    return "done"


def do_load(ctx, ff, st, op, name, what):
    rec = st.files.get(name)
    if rec is None or len(st.live) > 5:
        return "none"
    path = ctx.path(name)
    kind, val, fired = attempt(ctx, op, lambda: ff.load_finalfusion(path, mmap=op["mmap"]))
    if rec[0] == "whole":
        if kind == "exc":
            if fired:
                return f"failed ({type(val).__name__})"
            raise Violation("unexpected-error", f"{what} of a completely saved file: {type(val).__name__}: {val}")
        c = snapshot(rec[1])
        d = observe.embeddings(val, c)
        if d:
            raise Violation("state", f"{what}: {d}")
        st.live.append([val, c, name if op["mmap"] else None])
        return "done"
    if rec[0] == "part":
        if kind == "ok":
            raise Violation("accepted", f"{what}: a file with a single {rec[1]} was loaded as embeddings")
        if isinstance(val, Exception) and not fired:
            get = {"vocab": ff.load_vocab, "storage": ff.load_storage, "norms": ff.load_norms, "meta": ff.load_metadata}
            got, _ = ctx.must(lambda: get[rec[1]](path), what + " of the part")
            d = ctx.check_chunk(rec[1], got, rec[2])
            if d:
                raise Violation("state", f"{what}: {d}")
        return "part"
    if kind == "ok":  # a failed save may have left the complete file
        for cand in rec[1]:
            if cand[0] == "whole" and observe.embeddings(val, cand[1]) is None:
                return "broken but complete"
        raise Violation("state", f"{what}: what a failed save left behind was loaded as embeddings nobody saved")
    return f"broken ({type(val).__name__})"


SPECIAL = {"simple": "load_simple_vocab", "bucket": "load_finalfusion_bucket_vocab", "fasttext": "load_fasttext_vocab",
           "explicit": "load_explicit_vocab", "nd": "load_ndarray", "pq": "load_quantized_array"}


def do_partload(ctx, ff, st, op, name, what):
    """Load one component of a file, and perhaps build embeddings around it."""
    rec = st.files.get(name)
    if rec is None or rec[0] == "broken":
        return "none"
    part, c = op["part"], rec[-1]
    path = ctx.path(name)
    there = (rec[0] == "whole" or rec[1] == part) and not (part == "norms" and c.norms is None or
                                                           part == "meta" and c.meta is None)
    fn = {"vocab": "load_vocab", "storage": "load_storage", "norms": "load_norms", "meta": "load_metadata"}[part]
    if op["special"] and part == "vocab":
        fn = SPECIAL[c.vocab.kind]
    if op["special"] and part == "storage":
        fn = SPECIAL[c.storage.kind]
    kw = {"mmap": op["mmap"]} if part == "storage" else {}
    kind, val, fired = attempt(ctx, op, lambda: getattr(ff, fn)(path, **kw))
    if kind == "exc":
        if there and not fired:
            raise Violation("unexpected-error", f"{what}: {fn} of {name}: {type(val).__name__}: {val}")
        return f"failed ({type(val).__name__})"
    if not there:
        raise Violation("accepted", f"{what}: {fn} of {name}: returned a {type(val).__name__} that is not there")
    d = ctx.check_chunk(part, val, c)
    if d:
        raise Violation("state", f"{what}: {fn} of {name}: {d}")
    if not op["use"] or len(st.live) > 5:
        return "done"
    # replace this part of existing embeddings; sizes that do not fit are refused
    old, oc, mapped = st.live[op["e"] % len(st.live)]
    new = {"vocab": oc.vocab, "storage": oc.storage, "norms": oc.norms, "meta": oc.meta}
    new[part] = {"vocab": c.vocab, "storage": c.storage, "norms": c.norms, "meta": copy.deepcopy(c.meta)}[part]
    args = {"vocab": old.vocab, "storage": old.storage, "norms": old.norms, "meta": old.metadata}
    args[part] = val
    fits = len(new["storage"].rows()) == new["vocab"].bound and \
        (new["norms"] is None or len(new["norms"]) == len(new["vocab"].words))
    kind, val, _ = ctx.run(lambda: ff.Embeddings(args["storage"], args["vocab"], args["norms"], args["meta"]))
    if (kind == "ok") != fits:
        raise Violation("accepted" if kind == "ok" else "unexpected-error",
                        f"{what}: embeddings with the {part} of {name}: {val!r}")
    if kind == "exc":
        return "does not fit"
    if part == "storage":
        mapped = name if op["mmap"] else None
    st.live.append([val, model.Content(new["vocab"], new["storage"], new["norms"], new["meta"]), mapped])
    return "assembled"


def construct(ctx, ff, op, emb, c, what):
    """Inconsistent parts are refused."""
    rs = np.random.RandomState(op["seed"])
    dims = emb.dims
    bound = c.vocab.bound
    k = op["kind"]

    def do():
        if k == "rows":
            return ff.Embeddings(ff.NdArray(rs.rand(bound + 1, dims).astype("<f4")), emb.vocab)
        if k == "norms":
            return ff.Embeddings(emb.storage, emb.vocab, ff.Norms(rs.rand(len(c.vocab.words) + 1).astype("<f4")))
        if k == "types":
            return ff.Embeddings(rs.rand(bound, dims).astype("<f4"), emb.vocab)
        if k == "f64":
            return ff.NdArray(rs.rand(bound, dims))
        if k == "meta":
            return ff.Embeddings(emb.storage, emb.vocab, None, {"a": 1})
        if k == "rows-":
            return ff.Embeddings(emb.storage[:bound - 1], emb.vocab)
        if k == "norms-":
            return ff.Embeddings(emb.storage, emb.vocab, ff.Norms(rs.rand(len(c.vocab.words) - 1).astype("<f4")))
        if k == "norms2d":
            return ff.Embeddings(emb.storage, emb.vocab,
                                 ff.Norms(rs.rand(len(c.vocab.words)).astype("<f4")).reshape((-1, 1)))
        if k == "vocab":
            return ff.Embeddings(emb.storage, list(c.vocab.words))
        if k in ("projection", "qnorms", "qnorms-", "codes", "codes-", "codes1"):
            return misfit(ff, emb, bound, k, rs)
        if k == "indexer":
            return ff.FinalfusionBucketVocab(["a"], ff.FastTextIndexer(5)) if op["seed"] % 2 else \
                ff.FastTextVocab(["a"], ff.FinalfusionHashIndexer(5))
        if k == "ngrams":
            return ff.ExplicitIndexer(["abc", "bcd", "abc"], 3, 3, {"abc": 0, "bcd": 1} if op["seed"] % 2 else None)
        if k == "gaps":
            return ff.ExplicitIndexer(["abc", "bcd"], 3, 3, {"abc": 0, "bcd": 2})
        if k == "missing":
            return ff.ExplicitIndexer(["abc", "bcd"], 3, 3, {"abc": 0, "xyz": 1})
        if k.startswith("range"):
            new = [lambda *a: ff.ExplicitIndexer(["abc"], *a), lambda *a: ff.FastTextIndexer(5, *a),
                   lambda *a: ff.FinalfusionHashIndexer(5, *a)][op["seed"] % 3]
            return new(4, 3) if k == "range" else new(0, 3)
        return ff.SimpleVocab([*c.vocab.words, "new word", "new word"])
    kind, val, fired = attempt(ctx, op, do)
    if kind == "ok":
        raise Violation("accepted", f"{what} was accepted")
    if not isinstance(val, (Exception, KeyboardInterrupt)):
        raise Violation("bad-failure", f"{what}: {val!r}")
    return f"refused ({type(val).__name__})"


def misfit(ff, emb, rows, k, rs):
    """Embeddings with a quantized storage whose parts do not fit together."""
    q, sub = 3, 2
    wide = q + {"codes": 1, "codes-": -1, "codes1": 1 - q}.get(k, 0)
    norms = None
    if k.startswith("qnorms"):
        norms = rs.rand(rows + (1 if k == "qnorms" else -1)).astype("<f4")
    proj = rs.rand(q * sub, q * sub + 1).astype("<f4") if k == "projection" else None
    pq = ff.PQ(rs.rand(q, 4, sub).astype("<f4"), proj)
    return ff.Embeddings(ff.QuantizedArray(pq, rs.randint(0, 4, (rows, wide)).astype("u1"), norms), emb.vocab)


def shrink(plan):
    for ops in gen.shrink_list(plan["ops"]):
        if ops:
            p = copy.deepcopy(plan)
            p["ops"] = ops
            yield p
    for i, op in enumerate(plan["ops"]):
        for key in ("intr", "fault"):
            if key in op:
                p = copy.deepcopy(plan)
                p["ops"][i].pop(key)
                yield p
        if op.get("mmap"):
            p = copy.deepcopy(plan)
            p["ops"][i]["mmap"] = False
            yield p
        if op["op"] == "new":
            for t in gen.shrink_spec(op["spec"]):
                if t["vocab"]["words"] and gen.bound(t["vocab"]):
                    p = copy.deepcopy(plan)
                    p["ops"][i]["spec"] = t
                    yield p
        if op["op"] == "meta" and op["val"] != {"k": 1}:
            p = copy.deepcopy(plan)
            p["ops"][i]["val"] = {"k": 1}
            yield p
    for p in shrink_key_spec(plan):
        if p["spec"]["vocab"]["words"]:
            yield p
