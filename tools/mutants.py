"""
Mutation analysis of the checks (run by hand, by no check).

  mutants.py list                       all mutants, one JSON per line
  mutants.py run OUT.jsonl [-j N] [--only REGEX] [--runs FRACTION]

Each mutant is applied to a scratch copy of /repo; those that build and pass the
repository's stable tests are put to the checks (from a scratch copy of /verif,
with a fraction of the quick runs) until one of them reports a violation.
"""
import argparse
import ast
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.Pow: "*"}
STR = {"utf-8": "latin-1", "utf8": "latin-1", "strict": "replace", "replace": "strict", "wb": "r+b", "rb": "r+b", "w": "a",
       " ": "  ", "ascii": "utf-8", "C": "F", "r": "r+", "c": "r+"}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = [0]
        for l in text.encode().splitlines(True):
            self.lines.append(self.lines[-1] + len(l))
        self.raw = text.encode()
        self.out = []
        self.doc = set()
        self.skip = 0

    def span(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        old = self.raw[a:b].decode()
        if old != new:
            self.out.append({"a": a, "b": b, "old": old, "new": new, "what": what, "line": n.lineno})

    def visit(self, n):
        # annotations are of no interest
        return super().visit(n)

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        self.body(n)

    def visit_ClassDef(self, n):
        self.body(n)

    def visit_Module(self, n):
        self.body(n)

    def body(self, n):
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:]
        for s in b:
            self.visit(s)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            t = type(n.ops[0])
            self.add(n, f"{self.src(n.left)} {CMP[t]} {self.src(n.comparators[0])}", "cmp")
            if t in (ast.Lt, ast.LtE):
                self.add(n, f"{self.src(n.left)} >= {self.src(n.comparators[0])}", "cmp-neg")
            if t in (ast.Gt, ast.GtE):
                self.add(n, f"{self.src(n.left)} <= {self.src(n.comparators[0])}", "cmp-neg")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join(self.src(v) for v in n.values) + ")", "bool")
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + o.join(self.src(v) for v in rest) + ")", "bool-drop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, f"({self.src(n.operand)})", "not")
        if isinstance(n.op, ast.USub):
            self.add(n, f"({self.src(n.operand)})", "neg")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, f"({self.src(n.left)} {BIN[type(n.op)]} {self.src(n.right)})", "bin")
        if isinstance(n.op, ast.Mult):
            self.add(n, self.src(n.left), "bin-drop")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            if v > 0:
                self.add(n, str(v - 1), "const")
        elif isinstance(v, str) and self.src(n)[:1] in "'\"":
            if v in STR:
                self.add(n, repr(STR[v]), "str")
            elif re.fullmatch(r"<[?bBiIqQd0-9]+", v):
                self.add(n, repr(">" + v[1:]), "struct")
                if re.search("[IQ]", v):
                    self.add(n, repr(v.replace("I", "i").replace("Q", "q")), "struct")
        elif isinstance(v, float):
            self.add(n, repr(v + 1), "const")

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.add(n, "pass", "drop-raise")

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.add(n, "return None", "return")
            self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "drop-stmt")
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop-aug")
        self.visit(n.value)

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            self.add(n, "pass", "drop-assign")
        self.visit(n.value)
        if isinstance(t, ast.Subscript):
            self.visit(t)

    def visit_If(self, n):
        self.add(n.test, "False", "if-false")
        self.add(n.test, "True", "if-true")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.src(n.body), "ifexp")
        self.add(n, self.src(n.orelse), "ifexp")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "astype", "strip", "rstrip", "reshape", "byteswap", "squeeze",
                                                       "ravel", "sum", "tolist", "view", "decode", "encode"):
            self.add(n, self.src(f.value), "drop-call")
        if isinstance(f, ast.Name) and f.id in ("list", "reversed", "sorted", "tuple", "str", "int", "float", "set", "dict") \
                and len(n.args) == 1:
            self.add(n, self.src(n.args[0]), "drop-conv")
        args = [self.src(a) for a in n.args]
        kws = [(f"{k.arg}=" if k.arg else "**") + self.src(k.value) for k in n.keywords]
        if len(args) >= 2:
            self.add(n, f"{self.src(f)}({', '.join([args[1], args[0]] + args[2:] + kws)})", "swap-args")
        for i in range(len(kws)):
            self.add(n, f"{self.src(f)}({', '.join(args + kws[:i] + kws[i + 1:])})", "drop-kw")
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None:
            self.add(n.lower, "", "slice")
        if n.upper is not None:
            self.add(n.upper, "", "slice")
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Continue(self, n):
        self.add(n, "break", "continue")

    def visit_Break(self, n):
        self.add(n, "continue", "break")


def pyx(text):
    out = []
    doc = False
    pos = 0
    for ln, line in enumerate(text.splitlines(True), 1):
        code = line.split("#")[0]
        q = code.count('"""')
        if q == 1:
            doc = not doc
        if not doc and q == 0 and not re.match(r"\s*(def|cdef [\w\[\]: ]*\w+$|cimport|from|import|class|cdef class|cpdef|@|raise)", code):
            for pat, rep in ((r"<=", "<"), (r">=", ">"), (r"(?<![<>=!])<(?![<=>a-zA-Z])", "<="), (r"(?<![<>=!-])>(?![>=])", ">="),
                             (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"),
                             (r"\b1\b", "2"), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"\bTrue\b", "False"),
                             (r"\bFalse\b", "True"), (r" \* ", " + "), (r" % ", " + "), (r" & ", " | "), (r" \^ ", " | "),
                             (r"<<", ">>"), (r"is None", "is not None"), (r"is not None", "is None")):
                for m in re.finditer(pat, code):
                    a = len(text[:pos].encode()) + len(code[:m.start()].encode())
                    out.append({"a": a, "b": a + len(m.group().encode()), "old": m.group(), "new": rep, "what": "pyx",
                                "line": ln, "ctx": line.strip()})
            s = code.strip()
            if re.match(r"[\w.\[\]]+\(.*\)$|[\w.\[\], ]+ [+*^|&-]?= .*[^:(,]$", s) and not s.startswith(("return", "cdef")):
                a = len(text[:pos].encode()) + len(code) - len(code.lstrip())
                out.append({"a": a, "b": a + len(s.encode()), "old": s, "new": "pass", "what": "pyx-drop", "line": ln, "ctx": s})
        pos += len(line)
    return out


def mutants():
    res = []
    for p in sorted(glob.glob(REPO + "/src/finalfusion/**/*.py*", recursive=True)):
        rel = os.path.relpath(p, REPO)
        if not p.endswith((".py", ".pyx")):
            continue
        text = open(p, encoding="utf-8").read()
        if p.endswith(".pyx"):
            ms = pyx(text)
        else:
            g = Gen(text)
            g.visit(ast.parse(text))
            ms = g.out
            for m in ms:
                m["ctx"] = text.splitlines()[m["line"] - 1].strip()
        seen = set()
        for m in ms:
            key = (m["a"], m["b"], m["new"])
            if key in seen:
                continue
            seen.add(key)
            m["file"] = rel
            m["id"] = f"{os.path.basename(rel)}:{m['line']}:{m['a']}:{m['what']}:{len(res)}"
            res.append(m)
    return res


ORDER = {"io.py": "C01 C14 C03 C07 C02 C05 C06 C08", "embeddings.py": "C09 C11 C10 C01 C03 C06 C05", "metadata.py": "C01 C07 C11 C14",
         "norms.py": "C01 C11 C07 C03 C14 C09", "fasttext.py": "C12 C04 C05 C02 C14 C06", "text.py": "C12 C04 C13 C02 C05 C06",
         "word2vec.py": "C12 C04 C13 C02 C05 C06", "analogy.py": "C13", "similar.py": "C13", "select.py": "C13", "convert.py": "C13 C12 C02",
         "util.py": "C13 C12 C02 C17", "bucket_to_explicit.py": "C13", "ndarray.py": "C01 C09 C10 C07 C14 C06 C08 C17",
         "quantized.py": "C01 C09 C10 C07 C14 C06 C11", "simple_vocab.py": "C01 C09 C07 C03", "subword.py": "C01 C09 C11 C07 C14",
         "vocab.py": "C09 C01 C03 C11 C14", "_util.py": "C12 C04"}
BASE_FAILS = ['tests/test_storage.py::test_from_matrix']
ALL = ["C01", "C09", "C14", "C11", "C13", "C10", "C07", "C12", "C04", "C02", "C05", "C06", "C03", "C08", "C17"]


def runs_of(prop):
    m = re.search(r'RUNS = \{"quick": (\d+)', open(f"{VERIF}/ffsim/props/{prop.lower()}.py").read())
    return int(m.group(1))


def one(m, base, slot, frac, checks, brief):
    d = f"{base}/r{slot}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
    p = os.path.join(d, m["file"])
    raw = open(p, "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"]
    new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
    open(p, "wb").write(new)
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONHASHSEED="0",
               PATH="/opt/venv/bin:" + os.environ["PATH"])
    if p.endswith(".py"):
        try:
            compile(new, p, "exec")
        except SyntaxError:
            return "invalid", None
    else:
        for f in glob.glob(d + "/src/finalfusion/subword/*.c") + glob.glob(d + "/src/finalfusion/subword/*.so"):
            os.unlink(f)
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=d, env=dict(env, PYTHONPATH=""), capture_output=True)
        if r.returncode:
            return "invalid", None
        shutil.rmtree(d + "/build", ignore_errors=True)
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules"] +
                           [x for t in BASE_FAILS for x in ("--deselect", t)],
                           cwd=d, env=env, capture_output=True, timeout=300)
        if r.returncode:
            return "tests", None
        w = f"{base}/w{slot}"
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        os.symlink(d + "/tests", w + "/tests")
        for s in sorted(glob.glob(d + "/tests/integration/*.sh")):
            if s.endswith("all.sh"):
                continue
            if subprocess.run(["bash", s], cwd=w, env=env, capture_output=True, timeout=300).returncode:
                return "tests", None
    except subprocess.TimeoutExpired:
        return "tests", None
    order = ORDER.get(os.path.basename(m["file"]), "").split()
    if not brief:
        order += [c for c in ALL if c not in order]
    elif not order:
        order = ALL[:5]
    if checks:
        order = [c for c in order if c in checks]
    for c in order:
        r = subprocess.run(["bash", f"{base}/verif/check.sh", c, "--workers", "1", "--runs", str(int(runs_of(c) * frac))],
                           env=dict(os.environ, FFSIM_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, timeout=3000)
        out = r.stdout.decode(errors="replace")
        if r.returncode == 1:
            return "caught", c + " " + next((l for l in out.splitlines() if l.startswith("seed")), "")[:160]
        if r.returncode:
            return "ERROR", c + " " + out[-200:] + r.stderr.decode(errors="replace")[-300:]
    return "SURVIVED", None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("--redo", help="run again what survived in this earlier output")
    ap.add_argument("--runs", type=float, default=0.2)
    ap.add_argument("--checks", nargs="*")
    ap.add_argument("--brief", action="store_true", help="only the checks closest to the file")
    a = ap.parse_args()
    done = set()
    if a.out and os.path.exists(a.out):
        done = {json.loads(l)["id"] for l in open(a.out)}
    ms = mutants()
    if a.only:
        ms = [m for m in ms if re.search(a.only, m["id"] + " " + m["file"])]
    if a.cmd == "list":
        for m in ms:
            print(json.dumps(m))
        return
    if a.redo:
        old = [json.loads(l) for l in open(a.redo)]
        old = {(m["file"], m["ctx"], m["old"], m["new"], m["what"]) for m in old if m["result"] in ("SURVIVED", "ERROR")}
        ms = [m for m in ms if (m["file"], m["ctx"], m["old"], m["new"], m["what"]) in old]
    ms = [m for m in ms if m["id"] not in done]
    base = tempfile.mkdtemp(prefix="mut.", dir="/dev/shm")
    shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "replays"))
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    out = open(a.out, "a")

    def work(slot):
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                m["result"], m["by"] = one(m, base, slot, a.runs, a.checks, a.brief)
            except Exception as e:  # pylint: disable=broad-except
                m["result"], m["by"] = "ERROR", repr(e)
            with lock:
                out.write(json.dumps(m) + "\n")
                out.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(base)


main()
