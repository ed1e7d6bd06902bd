"""
Deterministic scheduling of caller threads, and interruption of one caller at an
arbitrary instant.

Instants are counted in interpreter events: every bytecode executed in a frame
whose code lies in the package under test, and every system call on a tracked
descriptor.  A plan names event numbers; nothing else decides who runs.
"""
import dis
import hashlib
import os
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
ACTIVE = None  # the running Scheduler


def package_prefix():
    return os.path.join(os.environ["FFSIM_SRC"], "finalfusion") + os.sep


class Tracer:
    """sys.settrace function that calls `point(frame)` for each bytecode."""
    def __init__(self, point):
        self.generators = {}
        self.prefix = package_prefix()
        self.point = point
        self._known = {}

    def glob(self, frame, event, arg):
        code = frame.f_code
        mine = self._known.get(code)
        if mine is None:
            mine = code.co_filename.startswith(self.prefix)
            self._known[code] = mine
        if not mine:
            return None
        if code.co_flags & 0x2a0:
            self.generators[id(frame)] = frame
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            try:
                self.point(frame)
            except BaseException:
                self.untrace(frame)
                raise
        return self.local

    def untrace(self, frame):
        """
        An exception that leaves a trace function ends the tracing of this thread.  CPython 3.12 does not
        look for that when it comes to a bytecode of a frame that was traced, and calls NULL.
        """
        while frame is not None:
            frame.f_trace_opcodes = False
            frame = frame.f_back
        for frame in self.generators.values():
            frame.f_trace_opcodes = False

    def end(self):
        sys.settrace(None)
        self.untrace(None)
        self.generators.clear()


def warm_up():
    """
    CPython 3.12 only delivers opcode events from the second settrace() on after
    f_trace_opcodes was first used in the process; use it once, up front.
    """
    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr
    for _ in range(2):
        sys.settrace(tr)
        try:
            (lambda: None)()
        finally:
            sys.settrace(None)


def run_traced(fn, point):
    """Run fn with `point(frame)` called at each bytecode of the package."""
    tr = Tracer(point)
    sys.settrace(tr.glob)
    try:
        return fn()
    finally:
        tr.end()


class InjectedMemoryError(MemoryError):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": InjectedMemoryError}


# never raise out of these: the interpreter is between two halves of one operation there
_UNSAFE = {"RETURN_GENERATOR", "RERAISE", "PUSH_EXC_INFO", "POP_EXCEPT", "CHECK_EXC_MATCH", "CHECK_EG_MATCH",
           "CALL_INTRINSIC_1", "SEND", "YIELD_VALUE", "END_FOR", "END_SEND", "WITH_EXCEPT_START", "CLEANUP_THROW",
           "COPY_FREE_VARS", "MAKE_CELL"}
_POINTS = {}


def interrupt_points(code):
    """
    Offsets at which CPython 3.12 can deliver a pending signal or run out of memory: function
    entry, backward jumps, calls, and right after a call returned.
    """
    pts = _POINTS.get(code)
    if pts is None:
        pts = set()
        before = ""
        for ins in dis.get_instructions(code):
            name = ins.opname
            if ins.positions.lineno is not None and name not in _UNSAFE:
                if name in ("RESUME", "JUMP_BACKWARD") or name.startswith("CALL") or before.startswith("CALL"):
                    pts.add(ins.offset)
            before = name
        _POINTS[code] = pts
    return pts


class Interrupt:
    """
    Raises an exception at the first interruptible instant from the n-th event (bytecode or
    system call) on.
    """
    def __init__(self, at, exc):
        self.at = at
        self.exc = EXC[exc]
        self.n = 0
        self.fired = False
        self.where = None

    def point(self, frame):
        n = self.n
        self.n += 1
        if self.at is not None and n >= self.at and not self.fired and \
                frame.f_lasti in interrupt_points(frame.f_code):
            self.fired = True
            self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
            raise self.exc("injected")

    def io(self, _name):
        self.n += 1

    def call(self, fn):
        return run_traced(fn, self.point)


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class _Baton:
    """Hand-over between real threads, independent of the (replaced) threading.Lock."""
    def __init__(self):
        self._lock = _real_lock()
        self._lock.acquire()

    def acquire(self):
        self._lock.acquire()

    def release(self):
        self._lock.release()


class _Task:
    def __init__(self, index, fn):
        self.index = index
        self.fn = fn
        self.sem = _Baton()
        self.end = _Baton()
        self.done = False
        self.blocked = None
        self.result = None
        self.thread = None
        self.inside = False  # in the scheduler itself: whatever is finalised meanwhile is no event


class Scheduler:
    """
    Runs tasks as real threads, exactly one at a time.

    `switches` maps an event number to the index of the task to run from there
    (taken modulo the number of runnable tasks when that one is not runnable).
    """
    def __init__(self, fns, switches, first=0, max_events=2_000_000, interrupts=None):
        self.interrupts = interrupts or {}  # index of a task -> Interrupt
        self.tasks = [_Task(i, fn) for i, fn in enumerate(fns)]
        self.switches = {int(a): int(b) for a, b in switches}
        self.first = first
        self.events = 0
        self.max_events = max_events
        self.current = None
        self.by_ident = {}
        self.main = _Baton()
        self.ready = _Baton()
        self.history = []
        self.deadlock = False
        self.overrun = False
        self.abort = False

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked is None]

    def _point(self, where):
        e = self.events
        self.events += 1
        if self.abort:
            raise _Abort()
        if e > self.max_events:
            self.overrun = True
            self.abort = True
            raise _Abort()
        want = self.switches.get(e)
        if want is None:
            return
        cur = self.current
        runnable = self._runnable()
        target = self.tasks[want % len(self.tasks)]
        if target not in runnable:
            target = runnable[want % len(runnable)]
        if target is cur:
            return
        self.history.append((e, cur.index, target.index, where))
        self._handoff(cur, target)

    def _handoff(self, cur, target):
        self.current = target
        target.sem.release()
        if cur is not None:
            cur.sem.acquire()

    def point(self, frame):
        task = self.by_ident.get(_thread.get_ident())
        if task is None or task.inside:
            return
        task.inside = True
        try:
            self._point(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}")
            intr = self.interrupts.get(task.index)
            if intr is not None:
                intr.point(frame)
        finally:
            task.inside = False

    def io(self, name):
        task = self.by_ident.get(_thread.get_ident())
        if task is not None and not task.inside:
            task.inside = True
            try:
                if task.index in self.interrupts:
                    self.interrupts[task.index].io(name)
                self._point("io:" + name)
            except _Abort:
                pass
            finally:
                task.inside = False

    # -- cooperative locks -------------------------------------------------------
    def block(self, lock):
        task = self.by_ident.get(_thread.get_ident())
        task.inside = True
        try:
            self._block(task, lock)
        finally:
            task.inside = False

    def _block(self, task, lock):
        task.blocked = lock
        runnable = self._runnable()
        if not runnable:
            task.blocked = None
            self.deadlock = True
            self.abort = True
            raise _Abort()
        self.history.append((self.events, task.index, runnable[0].index, "lock"))
        self._handoff(task, runnable[0])
        if self.abort:
            raise _Abort()

    def unblock(self, lock):
        for t in self.tasks:
            if t.blocked is lock:
                t.blocked = None

    # -- running --------------------------------------------------------------------
    def _body(self, task):
        # tracing is switched on before and off after the simulated part: CPython 3.12 does not
        # take it well when that happens while other threads are inside traced frames
        tr = Tracer(self.point)
        self.by_ident[_thread.get_ident()] = task
        sys.settrace(tr.glob)
        self.ready.release()
        task.sem.acquire()
        try:
            if not self.abort:
                try:
                    task.result = ("ok", task.fn())
                except _Abort:
                    task.result = ("abort", None)
                except BaseException as exc:  # pylint: disable=broad-except
                    task.result = ("exc", exc)
        finally:
            task.done = task.inside = True
            rest = self._runnable()
            if rest:
                self.history.append((self.events, task.index, rest[0].index, "end"))
                self.current = rest[0]
                rest[0].sem.release()
            else:
                stuck = [t for t in self.tasks if not t.done]
                if stuck:
                    self.deadlock = True
                    self.abort = True
                    for t in stuck:
                        t.blocked = None
                    self.current = stuck[0]
                    stuck[0].sem.release()
                else:
                    self.main.release()
            task.end.acquire()
            tr.end()

    def run(self):
        global ACTIVE
        old = threading.stack_size(512 * 1024)
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
            self.ready.acquire()
        threading.stack_size(old)
        ACTIVE = self
        try:
            self.current = self.tasks[self.first % len(self.tasks)]
            self.current.sem.release()
            self.main.acquire()
        finally:
            ACTIVE = None
        for t in self.tasks:
            t.end.release()
            t.thread.join()
        return [t.result for t in self.tasks]

    def signature(self):
        """Identity of the interleaving: who was switched out where, in order."""
        text = repr([(a, b, w) for _, a, b, w in self.history])
        return hashlib.sha1(text.encode()).hexdigest()[:16]


class SimLock:
    """threading.Lock stand-in: under the scheduler a contended acquire yields."""
    def __init__(self):
        self._lock = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        sched = ACTIVE
        if sched is None or _thread.get_ident() not in sched.by_ident:
            return self._lock.acquire(blocking, timeout)
        while True:
            if self._lock.acquire(False):
                return True
            if not blocking or timeout >= 0:
                return False
            sched.block(self)

    def release(self):
        self._lock.release()
        sched = ACTIVE
        if sched is not None:
            sched.unblock(self)

    def locked(self):
        return self._lock.locked()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def install_locks():
    """Locks the package creates become scheduling points instead of real waits."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
