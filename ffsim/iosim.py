"""
The simulated disk: policy side of shim.c.

A `Session` is one stretch of simulated execution.  It carries the explicit
fault list of a plan, counts every system call on a tracked descriptor, keeps
the ordered log of everything that changed the disk (from which crash images
are rebuilt), and calls the scheduler at every system call.
"""
import ctypes
import errno as _errno
import gc
import os
import shutil
import stat
import tempfile
import traceback
from collections import Counter

from ffsim import env as _env

OPEN, READ, WRITE, CLOSE, LSEEK, FSYNC, TRUNC, MMAP, RENAME, UNLINK, OPENED, DUP, STREAM = range(1, 14)
NAMES = {OPEN: "open", READ: "read", WRITE: "write", CLOSE: "close", LSEEK: "lseek",
         FSYNC: "fsync", TRUNC: "trunc", MMAP: "mmap", RENAME: "rename", UNLINK: "unlink"}

_HOOK = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long,
                         ctypes.c_void_p, ctypes.c_char_p)


class HarnessError(Exception):
    """The simulator itself misbehaved: never a verdict about finalfusion."""


class Session:
    """One stretch of simulated I/O with its fault list."""
    def __init__(self, faults=(), on_step=None, log=False, actions=None):
        self.faults = [dict(f) for f in faults]
        self.count = Counter()  # system calls by kind
        self.fired = Counter()  # faults that really happened
        self.total = 0
        self.written = 0
        self.on_step = on_step
        self.log = [] if log else None
        self.actions = actions or {}  # io step -> callable
        self.error = None
        self.stuck = None
        self.paths = {}
        self.flags = {}
        self.opened_paths = []
        self.trace = []
        self.reads = None  # or a list: (path, offset, length) of every read
        self._same = {}

    # -- the decision ----------------------------------------------------
    def decide(self, op, fd, off, length, buf, path):
        if op == OPENED:
            p = os.fsdecode(path)
            self.paths[fd] = p
            self.flags[fd] = off
            self.opened_paths.append(p)
            if self.log is not None:
                if off & os.O_TRUNC:
                    self.log.append(("trunc", p, 0))
                elif off & os.O_CREAT:
                    self.log.append(("create", p))
            return 0
        if op == DUP:
            self.paths[fd] = self.paths.get(off)
            self.flags[fd] = self.flags.get(off, os.O_WRONLY)
            return 0
        name = NAMES[op]
        if op == CLOSE:
            if off != 1:
                name = "closedup"
            elif not self.flags.get(fd, os.O_WRONLY) & (os.O_WRONLY | os.O_RDWR):
                name = "closeread"
        i = self.count[name]
        self.count[name] += 1
        step = self.total
        self.total += 1
        if self.on_step is not None:
            self.on_step(name)
        act = self.actions.get(step)
        if act is not None:
            self.fired["action"] += 1
            act()
        if op == READ:
            key = (fd, off)
            last, n = self._same.get(fd, (None, 0))
            n = n + 1 if last == off else 0
            self._same[fd] = (off, n)
            if n > 3000:
                self.stuck = f"more than 3000 reads of {self.paths.get(fd)} at offset {off} without progress"
                return -_errno.EIO
        res = 0
        for f in self.faults:
            k = f["kind"]
            if k == "short_read" and op == READ or k == "short_write" and op == WRITE:
                if length > 1:
                    sizes = f["sizes"]
                    res = sizes[i % len(sizes)]
                    if res < length:
                        self.fired[k] += 1
                    else:
                        res = 0
            elif k == "enospc" and op == WRITE:
                room = f["budget"] - self.written
                if room <= 0:
                    self.fired["enospc"] += 1
                    return -_errno.ENOSPC
                if room < length and (res == 0 or room < res):
                    res = room
            elif k == "rofs" and (op in (RENAME, UNLINK, TRUNC) or op == OPEN and off & (
                    os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                self.fired["erofs"] += 1
                return -_errno.EROFS
            elif k == "err" and f["op"] == name:
                if i == f["at"] or (f.get("sticky") and i > f["at"]):
                    self.fired[f"{f['errno'].lower()}@{name}"] += 1
                    return -getattr(_errno, f["errno"])
        if op == READ and self.reads is not None:
            self.reads.append((self.paths.get(fd), off, min(res, length) if res else length))
        if op == WRITE:
            n = min(res, length) if res else length
            self.written += n
            if self.log is not None:
                self.log.append(("write", self.paths.get(fd), off, ctypes.string_at(buf, n)))
        elif self.log is not None:
            if op == TRUNC:
                self.log.append(("trunc", self.paths.get(fd), length))
            elif op == RENAME:
                new = ctypes.string_at(buf).decode("utf-8", "surrogateescape")
                self.log.append(("rename", os.fsdecode(path), new))
            elif op == UNLINK:
                self.log.append(("unlink", os.fsdecode(path)))
        return res


class Disk:
    """Owns the scratch root and installs the hook."""
    def __init__(self):
        self.lib = ctypes.CDLL(os.environ["FFSIM_SHIM"])
        self.lib.ffsim_install.argtypes = [_HOOK, ctypes.c_char_p]
        self.root = tempfile.mkdtemp(prefix="ffsim.", dir=_env.scratch_base())
        with open(os.path.join(self.root, ".pid"), "w") as f:
            f.write(str(os.getpid()))
        self.session = None
        self._cb = _HOOK(self._hook)
        self._n = 0
        self.harness_error = None
        self.lib.ffsim_install(self._cb, os.fsencode(self.root + "/"))
        self.totals = Counter()
        self.fired = Counter()

    def _hook(self, op, fd, off, length, buf, path):
        s = self.session
        if s is None:
            return 0
        try:
            return s.decide(op, fd, off, length, buf, path)
        except BaseException:  # pylint: disable=broad-except
            self.harness_error = traceback.format_exc()
            return 0

    def close(self):
        self.session = None
        shutil.rmtree(self.root, ignore_errors=True)

    # -- scratch files ------------------------------------------------------
    def fresh(self):
        """A new empty directory below the simulation root."""
        self._n += 1
        d = os.path.join(self.root, f"r{self._n}")
        os.mkdir(d)
        return d

    def drop(self, directory):
        shutil.rmtree(directory, ignore_errors=True)

    def open_fds(self):
        return self.lib.ffsim_count_tracked()

    def leaked(self):
        """Tracked descriptors still open after everything is collected."""
        if self.open_fds():
            gc.collect()
        return self.open_fds()

    def forget_fds(self):
        """Close whatever is still tracked, so that one run cannot affect the next."""
        if self.open_fds():
            gc.collect()
        if self.open_fds():
            for fd in range(3, 4096):
                if self.lib.ffsim_tracked(fd):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                    self.lib.ffsim_track(fd, 0)

    # -- running -----------------------------------------------------------------
    def run(self, fn, session):
        """
        Runs fn() under the session.  Returns ("ok", value) or ("exc", exception).
        """
        self.session = session
        try:
            try:
                out = ("ok", fn())
            except Exception as exc:  # pylint: disable=broad-except
                out = ("exc", exc)
            except (KeyboardInterrupt, SystemExit) as exc:
                out = ("exc", exc)
        finally:
            self.session = None
            self.totals.update(session.count)
            self.fired.update(session.fired)
        if out[0] == "exc":
            strip_tb(out[1])
        if self.harness_error:
            err, self.harness_error = self.harness_error, None
            raise HarnessError(err)
        return out


def strip_tb(exc):
    """Drop frames (and the objects they hold) from an exception chain."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        exc.__traceback__ = None
        exc = exc.__cause__ or exc.__context__


def apply_log(initial, log, upto, torn=None):
    """
    Rebuild the disk after a crash: `initial` is {path: bytes}; the first `upto`
    log records reached the disk, the next one only its first `torn` bytes.
    """
    disk = {p: bytearray(b) for p, b in initial.items()}

    def do(rec, limit=None):
        kind = rec[0]
        if kind == "create":
            disk.setdefault(rec[1], bytearray())
        elif kind == "trunc":
            cur = disk.setdefault(rec[1], bytearray())
            if len(cur) > rec[2]:
                del cur[rec[2]:]
            else:
                cur.extend(b"\0" * (rec[2] - len(cur)))
        elif kind == "write":
            _, path, off, data = rec
            if limit is not None:
                data = data[:limit]
            cur = disk.setdefault(path, bytearray())
            if len(cur) < off:
                cur.extend(b"\0" * (off - len(cur)))
            cur[off:off + len(data)] = data
        elif kind == "rename":
            if rec[1] in disk:
                disk[rec[2]] = disk.pop(rec[1])
        elif kind == "unlink":
            disk.pop(rec[1], None)

    for rec in log[:upto]:
        do(rec)
    if torn and upto < len(log) and log[upto][0] == "write":
        do(log[upto], torn)
    return {p: bytes(b) for p, b in disk.items()}


def log_steps(log):
    """Number of instants at which a crash can hit: every byte written, every other change."""
    return sum(len(r[3]) if r[0] == "write" else 1 for r in log)


def image_at(initial, log, step):
    """The disk after the first `step` instants of the log."""
    i = 0
    while i < len(log):
        n = len(log[i][3]) if log[i][0] == "write" else 1
        if step < n:
            break
        step -= n
        i += 1
    return apply_log(initial, log, i, step or None)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def put_sparse(path, pieces, size):
    with open(path, "wb") as f:
        f.truncate(size)
        for pos, data in pieces:
            f.seek(pos)
            f.write(data)


def get(path):
    with open(path, "rb") as f:
        return f.read()
