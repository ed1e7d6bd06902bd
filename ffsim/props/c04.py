"""C04: a torn word2vec, fastText, text or text-dims file never yields made-up vectors."""
import copy

from ffsim import compat, gen, iosim, model
from ffsim.core import Violation, gen_locale, gen_short, shrink_faults, shrink_key_spec

ID = "C04"
RUNS = {"quick": 30000, "thorough": 80000}
RULE = ("a run produces one word2vec, fastText, text or text-dims file (written by the package with every write "
        "recorded, or as other programs write it), rebuilds it as a crash would leave it at each planned instant and "
        "loads it through a disk that splits reads; distinct and non-trivial: (format, source, rows and columns, "
        "bytes kept relative to the row, verdict of the reference parser, outcome) of a torn, non-empty image")
STUBS = ["disk after a crash: rebuilt from the log of accepted changes, in order, cut at the planned instant",
         "system calls on simulated files: read lengths decided by the plan"]
ASSUMPTIONS = ["a cut is only detectable where the format says how much must follow: text files have no end marker, so "
               "a cut between rows or inside the last number leaves a valid file and the loader must give exactly what "
               "that file says"]


def gen_plan(rng, tier):
    fmt = rng.choice(["word2vec", "word2vec", "text", "textdims", "fasttext"])
    spec = compat.gen_compat_spec(rng, fmt, big=rng.random() < 0.3)
    plan = {"fmt": fmt, "spec": spec, "source": rng.choice(["package", "package", "other"]),
            "style": compat.gen_style(rng), "faults": [], "points": [], "lossy": rng.choice([None, None, False, True]),
            "locale": gen_locale(rng)}
    if plan["source"] == "other" and spec["vocab"]["words"] and rng.random() < 0.5:  # malformed UTF-8
        words = spec["vocab"]["words"]
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(len(words))
            at = rng.randrange(len(words[k]) + 1)
            words[k] = words[k][:at] + rng.choice(sorted(compat.BAD)) + words[k][at:]
    if rng.random() < 0.5:
        plan["faults"].append(gen_short(rng, "short_read"))
    if rng.random() < 0.3:
        plan["faults"].append(gen_short(rng, "short_write"))
    for _ in range(8):
        if rng.random() < 0.5:
            plan["points"].append({"frac": rng.random()})
        else:  # near the end of a row
            plan["points"].append({"row": rng.random(), "delta": rng.choice(
                [-9, -8, -5, -4, -3, -2, -1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12])})
    plan["points"].append({"frac": 1.0})
    return plan


def row_ends(fmt, data, content):
    """Some offsets at which rows (or headers) end."""
    out, pos = [], 0
    if fmt in ("text", "textdims"):
        while True:
            pos = data.find(b"\n", pos) + 1
            if not pos:
                break
            out.append(pos)
    elif fmt == "word2vec":
        pos = data.find(b"\n") + 1
        out.append(pos)
        cols = content.storage.rows().shape[1]
        for w in content.vocab.words:
            at = data.find(compat.word_bytes(w) + b" ", pos)
            if at < 0:
                break
            out.append(at + len(compat.word_bytes(w)) + 1 + 4)  # after the first component
            pos = at + len(compat.word_bytes(w)) + 1 + 4 * cols
            out.append(pos)
    else:
        rows, cols = content.storage.rows().shape
        body = 4 * rows * cols
        for w in content.vocab.words[:4]:
            out.append(data.find(compat.word_bytes(w) + b"\0", 80))
        for k in range(1, rows + 1):
            out.append(len(data) - body + 4 * cols * k)
        out += [8, 64, 84, 92]
    return [o for o in out if 0 < o <= len(data)] or [len(data)]


def run(ctx, plan):
    ctx.locale(plan["locale"])
    emb, content = gen.build(ctx.ff, plan["spec"])
    fmt = plan["fmt"]
    path = ctx.path("e.bin")
    if plan["source"] == "package":
        _, s = ctx.must(ctx.writer(fmt, emb, path), f"write {fmt}", faults=plan["faults"], log=True)
        data = iosim.get(path)
        total = iosim.log_steps(s.log)
        if iosim.image_at({}, s.log, total).get(path) != data:
            raise iosim.HarnessError("the write log does not reproduce the file")

        def image(kept):
            return iosim.image_at({}, s.log, total - len(data) + kept).get(path)
    else:
        data = compat.encode(fmt, content, plan["style"])

        def image(kept):
            return data[:kept]
    ends = row_ends(fmt, data, content)
    for p in plan["points"]:
        if "frac" in p:
            kept = int(p["frac"] * len(data))
        else:
            kept = ends[int(p["row"] * len(ends))] + p["delta"]
        kept = max(0, min(len(data), kept))
        img = image(kept)
        if img is None:
            continue
        iosim.put(path, img)
        try:
            raw = compat.parse(fmt, img, plan["lossy"])
            verdict = "valid"
        except model.Malformed as e:
            raw, verdict = None, f"malformed ({e})"
        what = f"load {fmt} ({plan['source']} file of {len(data)} bytes cut to {len(img)}; reference: {verdict})"
        kind, got, _ = ctx.run(ctx.loader(fmt, path, lossy=plan["lossy"]), plan["faults"], label="load")
        ctx.trace.append(f"{what}: {kind}")
        if kind == "exc":
            if not isinstance(got, Exception):
                raise Violation("bad-failure", f"{what}: {got!r}")
            if verdict.startswith("malformed ('utf-8'") and len(img) == len(data) and \
                    not isinstance(got, UnicodeDecodeError):
                raise Violation("bad-failure", f"{what}: {type(got).__name__}: {got}")
            if len(img) == len(data) and raw is not None:
                raise Violation("rejected", f"{what}: the complete file is refused: {type(got).__name__}: {got}")
        elif raw is None:
            raise Violation("torn-accepted", f"{what}: returned normally with words {got.vocab.words[-3:]!r}")
        else:
            d = compat.diff(got, raw)
            if d:
                raise Violation("wrong-content", f"{what}: {d}")
        got = None
        ctx.leak_check(what)
        ctx.probe(f"{fmt}:{'valid' if raw else 'malformed'}:{kind}")
        if plan["lossy"] and raw and any("\ufffd" in w for w in raw.words):
            ctx.probe("replaced-malformed-utf8")
        if len(img) and len(img) < len(data):
            base = max([o for o in ends if o <= len(img)], default=0)
            ctx.seen(fmt, plan["source"], content.storage.rows().shape, min(len(img) - base, 32), verdict[:12], kind)


def shrink(plan):
    for pts in gen.shrink_list(plan["points"]):
        if pts:
            p = copy.deepcopy(plan)
            p["points"] = pts
            yield p
    yield from shrink_faults(plan)
    for key in ("lossy", "locale"):
        if plan[key] is not None:
            p = copy.deepcopy(plan)
            p[key] = None
            yield p
    if plan["source"] == "other":
        if not any(c in w for w in plan["spec"]["vocab"]["words"] for c in compat.BAD):
            p = copy.deepcopy(plan)
            p["source"] = "package"
            yield p
        plain = {"nl": True, "sep": " ", "eol": "\n", "trail": "", "num": 0, "last": True}
        for k, v in plain.items():
            if plan["style"][k] != v:
                p = copy.deepcopy(plan)
                p["style"][k] = v
                yield p
    for p in shrink_key_spec(plan):
        v = p["spec"]["vocab"]
        if (plan["fmt"] != "fasttext" or v["type"] == "fasttext") and (plan["fmt"] != "text" or v["words"]):
            yield p
