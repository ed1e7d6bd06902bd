"""C13: the command line tools' results are right and depend on nothing but their inputs."""
import copy
import json
import os
import subprocess
import sys

import numpy as np

from ffsim import compat, gen, iosim, model, observe, queries
from ffsim.core import Violation, gen_locale, gen_short, shrink_key_spec
from ffsim.model import short
from ffsim.props import c12

ID = "C13"
RUNS = {"quick": 50000, "thorough": 300000}
RULE = ("a run executes one command line tool (select, similar, analogy, convert, bucket-to-explicit) on generated "
        "inputs in two simulated environments that differ in the interpreter's hash seed, in how reads and writes are "
        "split and in whether the list of words comes from a file or from standard input, optionally with an injected "
        "read or write error; results are judged against a reference and compared with each other; distinct and "
        "non-trivial: (tool, format, vocabulary and storage kind, options, number of list entries and of unknown and "
        "repeated ones, fault fired, outcome)")
STUBS = ["hash randomisation: the second environment is a process with a planned PYTHONHASHSEED",
         "standard input: a simulated file", "system calls on simulated files: lengths and errors decided by the plan"]
ASSUMPTIONS = ["the locale's encoding is UTF-8", "similarities are compared with single precision tolerance"]
HASHES = ["1", "2"]
TOOLS = ["select", "select", "select", "similar", "analogy", "analogy", "convert", "bucket_to_explicit"]


# ---- the second environment -------------------------------------------------------------------
class Helper:
    def __init__(self, hashseed, scratch):
        env = dict(os.environ, PYTHONHASHSEED=hashseed, FFSIM_SCRATCH=scratch)
        self.p = subprocess.Popen([sys.executable, "-m", "ffsim.worker", "serve", ID], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Violation("crash", f"the tool's process ended with {self.p.wait()}")
        res = json.loads(line)
        if "harness" in res:
            raise iosim.HarnessError(res["harness"])
        return res


HELPERS = {}


def helper(ctx, hashseed):
    h = HELPERS.get(hashseed)
    if h is None or h.p.poll() is not None:
        h = HELPERS[hashseed] = Helper(hashseed, ctx.disk.root)
    return h


def serve(ctx, req):
    """Run a tool in a fresh directory: everything that can be observed, as JSON."""
    os.chdir(ctx.dir)
    ctx.locale(req["locale"])
    for name, data in req["files"].items():
        iosim.put(ctx.path(name), bytes.fromhex(data))
    before = sorted(os.listdir(ctx.dir))
    kind, val, s = ctx.run(lambda: ctx.cli(req["tool"], req["argv"], req["stdin"]), req["faults"], label=req["tool"])
    os.chdir(ctx.cwd)
    if kind == "exc":
        code, out, err = 1, None, f"{type(val).__name__}: {val}"
    else:
        code, out, err = val
    val = None
    leaked = ctx.disk.leaked()
    files = {n: iosim.get(ctx.path(n)).hex() for n in sorted(os.listdir(ctx.dir))}
    for n in req["files"]:
        if n != "out" and files.get(n) == req["files"][n]:
            files.pop(n)  # unchanged input
    return {"code": code, "out": out, "err": err, "files": files, "fired": dict(s.fired), "before": before,
            "leaked": leaked, "count": dict(s.count)}


# ---- plans ----------------------------------------------------------------------------------------
def clean(words):
    """Words that a line of a list can hold."""
    return [w for w in words if w and w == w.strip() and "\n" not in w and "\r" not in w]


OPENERR = ["EACCES", "ENOENT", "EMFILE", "EIO", "EPERM", "EISDIR"]


def gen_plan(rng, tier):
    tool = rng.choice(TOOLS)
    fmt = rng.choice(["finalfusion"] * 4 + compat.FORMATS)
    if tool == "bucket_to_explicit":
        fmt = rng.choice(["finalfusion", "finalfusion", "fasttext"])
    kw = dict(big=False, special=False, maxwords=rng.choice([3, 6, 12]), odd=False)
    if fmt == "finalfusion":
        kind = rng.choice(["bucket", "bucket", "fasttext", "fasttext", "simple", "explicit"]) \
            if tool == "bucket_to_explicit" else None
        spec = gen.gen_spec(rng, kind, minrows=1, minwords=int(tool == "convert"), layouts=["C"], odd=tool == "select", **{k: v for k, v in kw.items()
                                                                                         if k != "odd"})
    else:
        spec = compat.gen_compat_spec(rng, fmt, minwords=1, layouts=["C"], extreme=tool == "convert", **kw)
    spec["vocab"]["words"] = list(dict.fromkeys(w[:30] for w in spec["vocab"]["words"]))
    plan = {"tool": tool, "fmt": fmt, "spec": spec, "style": compat.gen_style(rng), "faults": [], "faults2": [],
            "hash": rng.choice(HASHES), "stdin": rng.random() < 0.4, "stdin2": rng.random() < 0.4, "opts": [],
            "mmap": fmt == "finalfusion" and rng.random() < 0.3}
    if fmt != "finalfusion" and rng.random() < 0.15:  # malformed UTF-8 in the embeddings
        i = rng.randrange(len(spec["vocab"]["words"]))
        spec["vocab"]["words"][i] += rng.choice(sorted(compat.BAD))
        plan["opts"] = rng.choice([[], ["-l"], ["-l"]])
    words = clean(queries.gen_words(rng, spec, 8) + spec["vocab"]["words"])
    if tool != "select":
        words = [w for w in words if not set(w) & set(compat.BAD)]
    if tool == "analogy":
        words = [w for w in words if len(w.split()) == 1]
    words = words or ["a"]
    if tool == "select":
        n = rng.choice([0, 1, 2, 4, 6, 10, 20])
        if rng.random() < 0.01:
            n = rng.choice([300, 1100])
        known = clean(spec["vocab"]["words"]) or words
        rows = [rng.choice(words if rng.random() < 0.4 else known) for _ in range(n)]
        if rng.random() < 0.5:
            rows = [w for w in rows if w in known]
        plan["list"] = [rng.choice(["", "", "", " ", "\t"]) + w + rng.choice(["", "", "", " ", "\u00a0"]) for w in rows]
        if rng.random() < 0.1 and plan["list"]:
            plan["list"][rng.randrange(len(rows))] = ""
        if rng.random() < 0.1 and plan["list"]:
            plan["list"][rng.randrange(len(rows))] += rng.choice(sorted(compat.BAD))
        plan["opts"] += [o for o in ("-i", "-v", "-l") if rng.random() < 0.45 and o not in plan["opts"]]
    elif tool == "similar":
        plan["list"] = [rng.choice(words) for _ in range(rng.randint(0, 4) if rng.random() < 0.99 else 60)]
        if rng.random() < 0.2:
            plan["list"].insert(0, rng.choice(["", "  ", "\t"]))
        if rng.random() < 0.3:
            plan["list"] = [rng.choice(["", "", " ", "\t", "\x0b"]) + w + rng.choice(["", "", " ", "\t", "\u00a0"])
                            for w in plan["list"]]
        plan["k"] = rng.choice([None, 0, 1, 2, 5, 30])
    elif tool == "analogy":
        plan["list"] = [rng.choice([" ", "\t", "  "]).join(rng.choice(words) for _ in range(3))
                        for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.2:
            plan["list"] = [rng.choice(["", " ", "\t"]) + w + rng.choice(["", " ", "\t"]) for w in plan["list"]]
        plan["k"] = rng.choice([None, 0, 1, 2, 5, 30])
        plan["include"] = rng.sample(["a", "b", "c"], rng.choice([0, 0, 1, 1, 1, 2, 3]))
    elif tool == "convert":
        to = ["finalfusion", "word2vec", "text", "textdims"]
        subword = spec["vocab"]["type"] == "fasttext" and fmt in ("finalfusion", "fasttext")
        if subword and spec["storage"]["type"] == "nd":
            to.append("fasttext")
        plan["to"] = rng.choice(to)
        if not subword and rng.random() < 0.1:
            plan["to"] = "fasttext"  # which has to be refused
    if tool in ("similar", "analogy") and plan["list"] and "-l" not in plan["opts"] and rng.random() < 0.05:
        plan["list"][rng.randrange(len(plan["list"]))] += rng.choice(sorted(compat.BAD))
    # lists and what is printed are in the encoding of the locale; embeddings never are
    plan["locale"] = gen_locale(rng) if tool in ("convert", "bucket_to_explicit") else None
    if tool not in ("similar", "analogy"):
        plan["old"] = rng.choice([0, 0, 1, 400])  # what the output held before
    plan["long"], plan["after"], plan["bare"] = (rng.random() < 0.4 for _ in range(3))
    if rng.random() < 0.02:
        bad = [["-f", "glove"], ["--mmaps"]] + {
            "analogy": [["-i", "a", "b", "c", "a"], ["-i", "d"], ["-k", "few"], ["-i", "b", "c", "b", "c", "a"]],
            "similar": [["-k", "few"]], "convert": [["-t", "glove"]],
            "bucket_to_explicit": [["-f", "word2vec"], ["-f", "text"]]}.get(tool, [])
        plan["misuse"] = rng.choice(bad)
    plan["eol"] = rng.choice(["\n", "\n", "\r\n"])
    plan["last"] = rng.random() < 0.8
    for key in ("faults", "faults2"):
        if rng.random() < 0.5:
            plan[key].append(gen_short(rng, "short_read"))
        if rng.random() < 0.3:
            plan[key].append(gen_short(rng, "short_write"))
        k = rng.random()
        if k < 0.08:
            plan[key].append({"kind": "err", "op": "read", "at": rng.choice([0, 1, 2, 3, 5, 9]), "errno": "EIO",
                              "sticky": rng.random() < 0.5})
        elif k < 0.14:
            plan[key].append({"kind": "enospc", "budget": rng.choice([0, 1, 10, 60, 200, 1000])})
        elif k < 0.17:
            plan[key].append({"kind": "err", "op": "close", "at": 0, "errno": "EIO"})
        elif k < 0.2:
            plan[key].append({"kind": "err", "op": "open", "at": rng.randrange(4), "errno": rng.choice(OPENERR),
                              "sticky": rng.random() < 0.5})
        elif k < 0.22:
            plan[key].append({"kind": "err", "op": "write", "at": rng.choice([0, 0, 1, 2]), "sticky": True,
                              "errno": rng.choice(["EPIPE", "EIO", "EACCES", "EDQUOT"])})
    return plan


def malformed(plan):
    """Are there words in the embeddings that are not valid UTF-8?"""
    return plan["fmt"] != "finalfusion" and any(set(w) & set(compat.BAD) for w in plan["spec"]["vocab"]["words"])


def list_bytes(plan):
    text = plan["eol"].join(plan["list"])
    if plan["last"] and plan["list"]:
        text += plan["eol"]
    return compat.word_bytes(text)


def request(plan, data, stdin, faults):
    tool = plan["tool"]
    files = {"in": data.hex()}
    name = None
    if "list" in plan:
        files["list"] = list_bytes(plan).hex()
    if plan.get("old"):
        files["out"] = old(plan).hex()
    opts = [[LONG[o] if plan.get("long") else o] for o in plan["opts"]]
    if plan["mmap"]:
        opts.append(["--mmap"])
    default = "word2vec" if tool == "convert" else "finalfusion"
    if plan["fmt"] != default or not plan.get("bare"):
        to = tool in ("convert", "bucket_to_explicit")
        opts.append([("--from" if to else "--format") if plan.get("long") else "-f", plan["fmt"]])
    if tool == "convert" and (plan["to"] != "finalfusion" or not plan.get("bare")):
        opts.append(["--to" if plan.get("long") else "-t", plan["to"]])
    if plan.get("k") is not None:
        opts.append(["-k", str(plan["k"])])
    if plan.get("include"):
        opts.append(["--include" if plan.get("long") else "-i", *plan["include"]])
    if plan.get("misuse"):
        opts.append(plan["misuse"])
    args = ["in"]
    if tool not in ("similar", "analogy"):
        args.append("out")
    if "list" in plan:
        if stdin:
            name = "list"
        else:
            args.append("list")
    # an option with any number of values would swallow the arguments that follow
    parts = [args, *opts] if plan.get("after") or plan.get("include") or plan.get("misuse") else [*opts, args]
    argv = [a for p in parts for a in p]
    return {"files": files, "tool": tool, "argv": argv, "stdin": name, "faults": faults,
            "locale": plan["locale"]}


LONG = {"-i": "--ignore_unk", "-v": "--verbose", "-l": "--lossy"}


def old(plan):
    return b"what was there before" * plan["old"]


class Approx(model.NdC):
    """A matrix that the tool computes in single precision."""
    kind = "approx"


def loaded(plan, content, data):
    """Content of the embeddings that the tool loads (None: not well-conditioned)."""
    if plan["fmt"] == "finalfusion":
        return content
    raw = compat.parse(plan["fmt"], data, True)
    rows = raw.matrix.astype(np.float64)
    norms = np.sqrt((rows * rows).sum(1))
    rows = rows / np.where(norms == 0, 1, norms)[:, None]
    if raw.ft is None:
        voc, meta = model.VocabC("simple", raw.words), None
    else:
        if np.any(np.array(raw.ft["scale"]) > 20 * norms):
            return None  # word vectors are sums that cancel: single precision decides their direction
        voc, meta = raw.ft["vocab"], compat.ft_meta(raw.ft["cfg"])
        rows = np.concatenate([rows, raw.ft["buckets"]])
    return model.Content(voc, Approx(rows), norms.astype(np.float32), meta)


# ---- judgement ------------------------------------------------------------------------------------
class Result:
    def __init__(self, word, similarity):
        self.word, self.similarity = word, similarity


def lines_of(plan):
    """The list as the tool sees it, or None if it cannot be decoded."""
    try:
        text = list_bytes(plan).decode("utf-8", "replace" if "-l" in plan["opts"] else "strict")
    except UnicodeDecodeError:
        return None
    lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    if lines[-1] == "":
        lines.pop()
    return lines


def judge_lists(plan, res, ref):
    """similar and analogy: what was printed."""
    got = [ln for ln in res["out"].split("\n") if ln]
    pos = 0
    for line in lines_of(plan):
        words = line.split() if plan["tool"] == "analogy" else [line.strip()]
        if not words or not words[0]:
            continue
        q = {"q": "similar", "w": words[0], "k": 10 if plan["k"] is None else plan["k"]}
        if plan["tool"] == "analogy":
            inc = plan["include"]
            q.update(q="analogy", ws=words,
                     skip=[w for w, part in zip(words, "abc") if part not in inc] if inc else words)
        parts = [ref.embedding(w) for w in words]
        if any(p is None for p in parts):
            if words[0] not in res["err"]:
                return f"nothing is said about {line!r}, which cannot be answered"
            continue
        skip = {q["w"]} if q["q"] == "similar" else set(q["skip"])
        n = min(q["k"], len([w for w in ref.c.vocab.words if w not in skip]))
        block = []
        for ln in got[pos:pos + n]:
            word, _, sim = ln.rpartition(" ")
            try:
                block.append(Result(word, float(sim)))
            except ValueError:
                return f"printed {ln!r}"
        pos += n
        r = queries.judge_similar(q, block, None, ref)
        if r:
            return f"{line!r}: {r}"
    if pos != len(got):
        return f"printed {len(got)} results, expected {pos}"
    return None


def wanted(plan, ref):
    """select: (words in order, unrepresentable ones), or None if the list is not valid UTF-8"""
    lines = lines_of(plan)
    if lines is None:
        return None
    words = list(dict.fromkeys(ln.strip() for ln in lines))
    unknown = [w for w in words if ref.embedding(w) is None]
    return [w for w in words if w not in unknown], unknown


def judge_select(plan, data, ref, want):
    try:
        c = model.dec_finalfusion(data)
    except model.Malformed as e:
        return f"the output is not a finalfusion file: {e}"
    if c.vocab.kind != "simple" or c.vocab.words != want:
        return f"selected {c.vocab.kind} {short(c.vocab.words)}, expected {short(want)}"
    if c.storage.kind != "nd":
        return f"storage is {c.storage.kind}"
    m = c.storage.rows()
    if m.shape != (len(want), ref.rows.shape[1]):
        return f"matrix has shape {m.shape}"
    for i, w in enumerate(want):
        q = {"q": "getitem", "w": w, "out": None, "default": False}
        r = queries.judge_vector(q, np.asarray(m[i]), None, ref, m.shape[1])
        if r:
            return f"{short(w)}: {r}"
    if c.norms is not None:
        return "norms appeared"
    meta = {"source_embeddings": "in"}
    if ref.c.meta is not None:
        meta["source_metadata"] = ref.c.meta
    if not meta_round_trips(meta):
        return None
    return None if c.meta == meta else f"metadata {short(c.meta)}, expected {short(meta)}"


def meta_round_trips(meta):
    return gen.meta_ok(meta)


def judge_convert(plan, data, content, src):
    to = plan["to"]
    if plan["fmt"] == "finalfusion":
        truth = c12.Truth(content)
    else:
        raw = compat.parse(plan["fmt"], src, True)
        rows = raw.matrix
        voc = model.VocabC("simple", raw.words)
        if raw.ft is not None:
            voc, rows = raw.ft["vocab"], np.concatenate([rows, raw.ft["buckets"]])
        truth = c12.Truth(model.Content(voc, model.NdC(rows)))
        if raw.ft is not None:
            truth.scale = np.maximum(truth.scale, raw.ft["scale"])
    truth.hops = 2
    try:
        if to == "finalfusion":
            c = model.dec_finalfusion(data)
            if plan["fmt"] == "finalfusion":
                return c.diff(content)
            r = truth.check(c.vocab.words, compat.vectors(c), "converted")
            if not r and c.vocab.key() != truth.vocab.key():
                r = f"converted vocabulary {short(c.vocab.key())}"
            return r
        if to == "fasttext":
            truth.to_fasttext()
        raw = compat.parse(to, data)
    except model.Malformed as e:
        return f"the output is not a valid {to} file: {e}"
    return truth.check(raw.words, raw.matrix, "converted")


def judge(plan, res, ref, content, src, what):
    if res["leaked"]:
        raise Violation("leaked-descriptor", f"{what}: {res['leaked']} file descriptors are still open")
    faulty = any("@" in k or k == "enospc" for k in res["fired"])
    wfault = any(k.startswith("enospc") or k.endswith(("@write", "@close")) for k in res["fired"])
    tool = plan["tool"]
    if plan.get("misuse"):
        if not res["code"]:
            raise Violation("wrong-result", f"{what}: exit status 0 for arguments that are not allowed")
        untouched(plan, res, what)
        return "misused"
    want = unknown = None
    if tool == "select":
        w = wanted(plan, ref)
        refuse = w is None or bool(w[1]) and "-i" not in plan["opts"]
        want, unknown = w or ([], [])
        if any(ref.embedding(x)[2] for x in want):
            return "skipped"
    elif tool == "bucket_to_explicit":
        refuse = content.vocab.kind not in ("bucket", "fasttext")
    else:
        refuse = "list" in plan and lines_of(plan) is None or \
            plan.get("to") == "fasttext" and content.vocab.kind != "fasttext"
    unread = "-l" not in plan["opts"] and malformed(plan)
    if unread:
        refuse, unknown = True, []
    if res["code"]:
        # a conversion into a format that cannot express it has opened its output when it finds out
        if tool == "select" and (refuse or faulty) and not wfault or \
                refuse and not faulty and (tool != "convert" or unread):
            untouched(plan, res, what)
        if refuse:
            if tool == "select" and unknown and not faulty and not any(w in res["err"] for w in unknown):
                raise Violation("wrong-result", f"{what}: nothing is said about the unknown words: {res['err']!r}")
            return "refused"
        if not faulty:
            raise Violation("unexpected-error", f"{what}: exit status {res['code']}: {res['err']}")
        return "failed"
    if refuse:
        raise Violation("wrong-result", f"{what}: exit status 0 for a {content.vocab.kind} vocabulary"
                        if tool in ("bucket_to_explicit", "convert") and not malformed(plan) else
                        f"{what}: exit status 0, although words cannot be represented or read")
    data = bytes.fromhex(res["files"].get("out", ""))
    if tool in ("similar", "analogy"):
        if res["files"]:
            raise Violation("wrong-result", f"{what}: wrote {sorted(res['files'])}")
        d = judge_lists(plan, res, ref)
    elif tool == "select":
        d = judge_select(plan, data, ref, want)
        if not d and unknown and "-v" not in plan["opts"] and not faulty and res["err"]:
            d = f"without -v skipping unknown words is not silent: {res['err']!r}"
        if not d and unknown and "-v" in plan["opts"] and not all(w in res["err"] for w in unknown):
            d = f"-v does not name all of {unknown}: {res['err']!r}"
    elif tool == "convert":
        d = judge_convert(plan, data, content, src)
    else:
        d = judge_b2e(data, ref)
    if not d and tool not in ("similar", "analogy") and sorted(res["files"]) != ["out"]:
        d = f"files {sorted(res['files'])} were written or changed"
    if d:
        raise Violation("wrong-result", f"{what}: {d}")
    return "done"


def untouched(plan, res, what):
    before = {"out": old(plan).hex()} if plan.get("old") else {}
    if res["files"] != before:
        raise Violation("wrong-result", f"{what}: refused, but changed {sorted(res['files'])}")


def judge_b2e(data, ref):
    try:
        c = model.dec_finalfusion(data)
    except model.Malformed as e:
        return f"the output is not a finalfusion file: {e}"
    if c.vocab.kind != "explicit":
        return f"the vocabulary is {c.vocab.kind}"
    return queries.judge_explicit_content(c, ref)


def run(ctx, plan):
    _, content = gen.build(ctx.ff, plan["spec"])
    src = model.enc_finalfusion(content) if plan["fmt"] == "finalfusion" else \
        compat.encode(plan["fmt"], content, plan["style"])
    content = loaded(plan, content, src)
    if content is None:
        return
    ref = model.Queries(content)
    one = serve(ctx, request(plan, src, plan["stdin"], plan["faults"]))
    what = f"ffp-{plan['tool']} {' '.join(request(plan, src, plan['stdin'], [])['argv'])}"
    r1 = judge(plan, one, ref, content, src, what)
    ctx.note(one["code"], one["out"], one["err"], sorted(one["files"].items()))
    ctx.trace.append(f"{what}: {r1}")
    two = helper(ctx, plan["hash"]).ask(request(plan, src, plan["stdin2"], plan["faults2"]))
    what2 = f"ffp-{plan['tool']} (hash seed {plan['hash']}, list from {'stdin' if plan['stdin2'] else 'a file'})"
    r2 = judge(plan, two, ref, content, src, what2)
    for k, n in two["count"].items():
        ctx.disk.totals[k] += n
    for k, n in two["fired"].items():
        ctx.disk.fired[k] += n
    ctx.events += sum(two["count"].values())
    ctx.note(two["code"], two["out"], two["err"], sorted(two["files"].items()))
    ctx.trace.append(f"{what2}: {r2}")
    ctx.probe(f"{plan['tool']}:{r1}")
    ctx.probe(f"{plan['tool']}:{r2}")
    if r1 == r2 == "done" and plan["tool"] not in ("similar", "analogy") and one["files"] != two["files"]:
        a, b = (bytes.fromhex(r["files"]["out"]) for r in (one, two))
        at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation("not-reproducible", f"{what}: the same input gives another output file in another process "
                        f"({len(a)} and {len(b)} bytes, first difference at {at})")
    if {r1, r2} == {"done", "refused"}:
        raise Violation("not-reproducible", f"{what}: {r1} in one process, {r2} in another")
    n = len(plan.get("list", ()))
    unk = sum(ref.embedding(w.strip()) is None for w in plan.get("list", ())) if plan["tool"] == "select" else 0
    ctx.seen(plan["tool"], plan["fmt"], content.vocab.kind, content.storage.kind, plan["opts"], plan.get("include"),
             plan.get("k"), plan.get("to"), plan["stdin"], plan["mmap"], n, unk, len(set(plan.get("list", ()))),
             sorted(one["fired"]), sorted(two["fired"]), r1, r2)


def shrink(plan):
    for key in ("faults", "faults2", "list", "opts", "include"):
        for lst in gen.shrink_list(plan.get(key) or []):
            if lst or key != "list" or plan["tool"] != "analogy":
                p = copy.deepcopy(plan)
                p[key] = lst
                yield p
    for key, val in (("stdin", False), ("stdin2", False), ("mmap", False), ("locale", None), ("old", 0), ("misuse", None), ("long", False), ("after", False), ("bare", False), ("eol", "\n"), ("last", True)):
        if plan.get(key, val) != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    for i, w in enumerate(plan.get("list", ())):
        if w != w.strip():
            p = copy.deepcopy(plan)
            p["list"][i] = w.strip()
            yield p
    for p in shrink_key_spec(plan):
        v = p["spec"]["vocab"]
        if plan["fmt"] == "fasttext" and v["type"] != "fasttext" or \
                not v["words"] and (plan["fmt"] != "finalfusion" or plan["tool"] == "convert"):
            continue
        if plan.get("to") == "fasttext" and (v["type"] == "fasttext") != (plan["spec"]["vocab"]["type"] == "fasttext") or \
                not gen.bound(v):
            continue
        yield p
