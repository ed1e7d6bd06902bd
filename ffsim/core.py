"""
What a property module works with: the context of one simulated run, and the
operations of the package under simulation.
"""
import hashlib
import locale
import os
import sys
from collections import Counter

from ffsim import gen, iosim, model, observe, sched
from ffsim.iosim import Session


class Violation(Exception):
    """The property does not hold."""
    def __init__(self, cls, detail):
        if len(detail) > 1500:
            detail = detail[:1000] + " ... " + detail[-400:]
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class FF:
    """The names of the package's public interface that the workloads use."""
    def __init__(self):
        import finalfusion
        import finalfusion.compat as compat
        import finalfusion.metadata as metadata
        import finalfusion.norms as norms
        import finalfusion.storage as storage
        import finalfusion.subword as subword
        import finalfusion.vocab as vocab
        from finalfusion.storage.quantized import PQ
        where = os.path.realpath(finalfusion.__file__)
        want = os.path.realpath(os.environ["FFSIM_SRC"])
        if not where.startswith(want + os.sep):
            raise iosim.HarnessError(f"finalfusion imported from {where}, not from {want}")
        self.PQ = PQ
        for mod in (compat, metadata, norms, storage, subword, vocab, finalfusion):
            for name in dir(mod):
                if not name.startswith("_"):
                    setattr(self, name, getattr(mod, name))


WRITERS = ["finalfusion", "word2vec", "text", "textdims", "fasttext"]


class Ctx:
    """One per worker process."""
    def __init__(self):
        self.disk = iosim.Disk()
        self.ff = FF()
        self.probes = Counter()
        self.cwd = os.getcwd()
        self._locale = "C.UTF-8"
        self.dump = [] if os.environ.get("FFSIM_DUMP") else None
        self.reset()

    def reset(self):
        self._log = hashlib.sha1()
        self.events = 0
        self.sigs = set()
        self.dir = None
        self.trace = []

    # -- one run ------------------------------------------------------------------
    def begin(self):
        self.reset()
        self.dir = self.disk.fresh()

    def end(self):
        os.chdir(self.cwd)
        self.locale("C.UTF-8")
        self.disk.forget_fds()
        if self.dir:
            self.disk.drop(self.dir)

    def locale(self, name):
        """The locale that the process runs in from here on; it decides the default encoding of text files."""
        if name and name != self._locale:
            locale.setlocale(locale.LC_CTYPE, name)
            self._locale = name
            if name == "C":
                self.disk.fired["locale"] += 1

    def note(self, *what):
        """Append to the event log of the run (its hash proves determinism)."""
        text = repr(what).replace(self.disk.root, "")
        self._log.update(text.encode("utf-8", "surrogatepass") + b"\n")
        if self.dump is not None:
            self.dump.append(text)

    def digest(self):
        return self._log.hexdigest()[:20]

    def probe(self, name, n=1):
        self.probes[name] += n

    def path(self, name):
        return os.path.join(self.dir, name)

    def seen(self, *sig):
        """Record a distinct behaviour of this run."""
        self.sigs.add(hashlib.sha1(repr(sig).encode("utf-8", "surrogatepass")).hexdigest()[:12])

    # -- running under the simulator --------------------------------------------------
    def run(self, fn, faults=(), log=False, actions=None, on_step=None, label="", quiet=False, reads=None):
        """("ok", value, session) or ("exc", exception, session)"""
        s = Session(faults, on_step=on_step, log=log, actions=actions)
        s.reads = reads
        kind, val = self.disk.run(fn, s)
        if quiet:  # how it fails may depend on the memory that is left
            self.note(label, kind)
        else:
            self.events += s.total
            self.note(label, kind, type(val).__name__ if kind == "exc" else "", sorted(s.count.items()),
                      sorted(s.fired.items()))
        if s.stuck:
            raise Violation("no-progress", s.stuck)
        if kind == "exc" and not isinstance(val, (Exception, KeyboardInterrupt, SystemExit)):
            raise Violation("crash", repr(val))
        return kind, val, s

    def schedule(self, fns, switches, faults=(), first=0, label="", max_events=12_000_000,
                 interrupts=None):
        """Run the functions as caller threads under the seeded scheduler: (results, scheduler)."""
        sc = sched.Scheduler(fns, switches, first, max_events, interrupts)
        kind, val, s = self.run(sc.run, faults, on_step=sc.io, label=label)
        if kind == "exc":
            raise iosim.HarnessError(f"scheduler: {val!r}")
        self.events += sc.events
        self.note("schedule", sc.events, sc.signature())
        if sc.deadlock:
            raise Violation("deadlock", "all caller threads are blocked")
        if sc.overrun:
            raise Violation("no-progress", f"more than {max_events} events")
        for r in val:
            if r[0] == "exc":
                iosim.strip_tb(r[1])
        self.probe("context-switches", len(sc.history))
        return val, sc

    def must(self, fn, what, **kw):
        kind, val, s = self.run(fn, label=what, **kw)
        if kind == "exc":
            raise Violation("unexpected-error", f"{what}: {type(val).__name__}: {val}")
        return val, s

    def interrupted(self, fn, at, exc, faults=(), label=""):
        """Run fn; `exc` is raised at its at-th event (None: only count)."""
        intr = sched.Interrupt(at, exc)
        kind, val, s = self.run(lambda: intr.call(fn), faults, on_step=intr.io, label=label)
        self.events += intr.n
        self.note("interrupt", at, intr.fired, intr.where)
        if intr.fired:
            self.probe(f"interrupt:{exc}")
        return kind, val, s, intr

    def leak_check(self, what):
        n = self.disk.leaked()
        if n:
            raise Violation("leaked-descriptor", f"{what}: {n} file descriptors are still open")

    # -- operations ---------------------------------------------------------------------
    def writer(self, fmt, emb, target, sep=None):
        ff = self.ff
        if fmt == "finalfusion":
            return lambda: emb.write(target)
        if fmt == "word2vec":
            return lambda: ff.write_word2vec(target, emb)
        if fmt == "fasttext":
            return lambda: ff.write_fasttext(target, emb)
        fn = ff.write_text if fmt == "text" else ff.write_text_dims
        if sep is None:
            return lambda: fn(target, emb)
        return lambda: fn(target, emb, sep=sep)

    def loader(self, fmt, target, mmap=False, lossy=None):
        ff = self.ff
        if fmt == "finalfusion":
            return lambda: ff.load_finalfusion(target, mmap=mmap)
        if lossy is not None:
            fn = getattr(ff, {"textdims": "load_text_dims"}.get(fmt, "load_" + fmt))
            return lambda: fn(target, lossy=lossy)
        return {"word2vec": lambda: ff.load_word2vec(target),
                "fasttext": lambda: ff.load_fasttext(target),
                "text": lambda: ff.load_text(target),
                "textdims": lambda: ff.load_text_dims(target)}[fmt]

    def offline(self, fn):
        """What another process (the shell) does: no part of the simulated execution."""
        session, self.disk.session = self.disk.session, None
        try:
            return fn()
        finally:
            self.disk.session = session

    def cli(self, tool, argv, stdin=None):
        """
        Runs a command line tool's main() in this process: (exit status, stdout, stderr).  Its descriptors
        0 and 1 are simulated files.
        """
        import importlib
        import io
        mod = importlib.import_module("finalfusion.scripts." + tool)
        printed = os.path.join(self.disk.root, "stdout")
        keep = [os.dup(0), os.dup(1)]
        names = ("stdin", "stdout", "stderr", "argv")
        saved = [getattr(sys, n) for n in names]

        def connect():
            for fd, (path, flags) in enumerate(((stdin or os.devnull, os.O_RDONLY),
                                                (printed, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))):
                new = os.open(path, flags, 0o600)
                os.dup2(new, fd)
                os.close(new)

        def disconnect():
            for fd, old in enumerate(keep):
                os.dup2(old, fd)
                os.close(old)

        def result():
            with open(printed, "rb") as f:
                return f.read().decode("utf-8", "backslashreplace")
        self.offline(connect)
        err = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", errors="backslashreplace", newline="\n",
                               write_through=True)
        sys.stdin, sys.stdout = self.offline(lambda: (
            open(0, encoding="utf-8", closefd=False), open(1, "w", encoding="utf-8", newline="\n", closefd=False)))
        sys.stderr = err
        sys.argv = ["ffp-" + tool, *argv]
        try:
            try:
                mod.main()
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            try:
                sys.stdout.flush()
            except OSError:
                code = 120  # what the interpreter exits with if it cannot flush
        finally:
            try:
                sys.stdout.flush()
            except (OSError, ValueError):
                pass
            self.offline(disconnect)
            for n, val in zip(names, saved):
                setattr(sys, n, val)
        return code, self.offline(result), err.buffer.getvalue().decode("utf-8", "backslashreplace")

    def component(self, emb, kind):
        return {"vocab": emb.vocab, "storage": emb.storage, "norms": emb.norms,
                "meta": emb.metadata}[kind]

    def chunk_loaders(self, content):
        """(name, kind, fn(path)) for each loader that fits the content's chunks."""
        ff = self.ff
        out = [("load_vocab", "vocab", ff.load_vocab),
               ({"simple": "load_simple_vocab", "bucket": "load_finalfusion_bucket_vocab",
                 "fasttext": "load_fasttext_vocab", "explicit": "load_explicit_vocab"}[content.vocab.kind],
                "vocab", None)]
        out[1] = (out[1][0], "vocab", getattr(ff, out[1][0]))
        special = "load_ndarray" if content.storage.kind == "nd" else "load_quantized_array"
        for mm in (False, True):
            out.append((f"load_storage(mmap={mm})", "storage", lambda p, m=mm: ff.load_storage(p, mmap=m)))
            out.append((f"{special}(mmap={mm})", "storage",
                        lambda p, m=mm, f=getattr(ff, special): f(p, mmap=m)))
        if content.norms is not None:
            out.append(("load_norms", "norms", ff.load_norms))
        if content.meta is not None:
            out.append(("load_metadata", "meta", ff.load_metadata))
        return out

    def check_chunk(self, kind, got, content):
        return {"vocab": lambda: observe.vocab(got, content.vocab),
                "storage": lambda: observe.storage(got, content.storage),
                "norms": lambda: observe.norms(got, content.norms),
                "meta": lambda: observe.meta(got, content.meta)}[kind]()

    def target(self, kind, path, write=True):
        """The path argument in one of its accepted forms."""
        if kind == "str":
            return path
        if kind == "bytes":
            return os.fsencode(path)
        if kind == "pathlike":
            import pathlib
            return pathlib.Path(path)
        if kind == "relative":
            os.chdir(os.path.dirname(path))
            return os.path.basename(path)
        if kind == "fd":
            flags = os.O_WRONLY | os.O_CREAT | os.O_TRUNC if write else os.O_RDONLY
            return os.open(path, flags, 0o644)
        raise ValueError(kind)


def same_path(a, b):
    """Do two forms of a path name the same file?"""
    return isinstance(a, (str, bytes, os.PathLike)) and os.fsdecode(a) == os.fsdecode(b)


TARGETS = ["str", "str", "str", "bytes", "pathlike", "relative", "fd"]


def gen_rofs(rng, p=0.25):
    """Files to be loaded may lie on media that cannot be written."""
    return [{"kind": "rofs"}] if rng.random() < p else []


def gen_locale(rng, p=0.2):
    """The encoding of files does not depend on the user's locale."""
    return "C" if rng.random() < p else None


def gen_short(rng, kind, huge=False):
    if huge:  # millions of tiny reads take minutes
        return {"kind": kind, "sizes": [rng.choice([4096, 5000, 65536, 999983]) for _ in range(rng.randint(1, 5))]}
    sizes = [rng.choice([1, 2, 3, 4, 5, 7, 11, 13, 64, 100, 1000, 4095, 4096, 5000])
             for _ in range(rng.randint(1, 5))]
    if max(sizes) < 11:
        sizes.append(rng.choice([11, 64, 1000]))
    return {"kind": kind, "sizes": sizes}


def shrink_faults(plan, key="faults"):
    import copy
    for fs in gen.shrink_list(plan.get(key, [])):
        p = copy.deepcopy(plan)
        p[key] = fs
        yield p


def shrink_key_spec(plan, key="spec"):
    import copy
    for s in gen.shrink_spec(plan[key]):
        p = copy.deepcopy(plan)
        p[key] = s
        yield p
