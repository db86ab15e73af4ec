"""Seams: files, directories, console, clock, prompt and interruptions, owned by the simulator.

The package under test has no injectable interfaces for these, so the names it calls are replaced from outside:
builtins.open / io.open (and the copy numpy.savetxt uses), os.mkdir, sys.stdout/stderr, time.*, input.
Text decoding, buffering and the handling of short writes are the real implementations of the io module; only the
lowest layer (the raw file, which repeats calls interrupted by a signal) is simulated, on top of real files in a scratch directory.
"""

import builtins
import errno
import io
import os
import sys
import time

from .core import PKG

_real_open = io.open
_real_mkdir = os.mkdir
_real_input = builtins.input
_real_time = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "sleep")}

CUR = None  # the active SimFS
SCHED = None  # the active scheduler


class SimCrash(BaseException):
    """The process died here (used where a crash is simulated inside of a process)."""


ERRNO = {
    "EIO": errno.EIO,
    "ENOSPC": errno.ENOSPC,
    "EACCES": errno.EACCES,
    "EMFILE": errno.EMFILE,
    "ENOENT": errno.ENOENT,
    "EROFS": errno.EROFS,
    "EDQUOT": errno.EDQUOT,
    "EPIPE": errno.EPIPE,
    "EAGAIN": errno.EAGAIN,
    "EISDIR": errno.EISDIR,
    "ESTALE": errno.ESTALE,
    "EPERM": errno.EPERM,
}


def make_fault(kind, path=""):
    if kind in ERRNO:
        return OSError(ERRNO[kind], os.strerror(ERRNO[kind]), str(path))
    if kind == "INT":
        return KeyboardInterrupt()
    if kind == "NOMEM":
        return MemoryError("simulated")
    if kind == "ENCODE":
        return UnicodeEncodeError("charmap", "\u26a0", 0, 1, "character maps to <undefined>")
    if kind == "CLOSED":
        return ValueError("I/O operation on closed file.")
    if kind == "CRASH":
        return SimCrash()
    raise AssertionError(kind)


class SimFS:
    """Simulated I/O below `roots` (real files underneath), with a fault plan.

    plan keys: faults [{op, n, kind}], read_chunks [int], write_chunks [int], buf int, quota int|None
    """

    def __init__(self, ctx, roots, plan=None):
        self.ctx = ctx
        self.roots = [os.path.abspath(str(r)) for r in roots]
        self.overlay = {}  # real path -> path of the file that is read in its place
        self.reset(plan or {})
        self.handles = []  # all raw files ever opened (strong references: closing must be explicit)
        self.dead = False
        self.quiet = False

    def reset(self, plan):
        """Arm a (new) fault plan, counters start over."""
        self.plan = plan
        self.counts = {}
        self.fired = []
        self.written = 0
        self.crash_at = plan.get("crash_at")
        self.total = 0

    def owns(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            return False
        return any(p == r or p.startswith(r + os.sep) for r in self.roots)

    def step(self, op, path):
        """One system call. Returns "RACE" if that is to be simulated by the caller, None, or raises."""
        if SCHED is not None:
            SCHED.yield_point("io")
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        t = self.total
        self.total += 1
        if not self.quiet:
            self.ctx.log("io", op, n, os.path.basename(str(path)))
        if self.dead:
            raise SimCrash()
        if self.crash_at is not None and t == self.crash_at:
            self.fired.append((op, n, "CRASH"))
            self.ctx.mark("crash", op, n)
            self.ctx.fault("crash@" + op)
            self.dead = True
            raise SimCrash()
        for f in self.plan.get("faults", ()):
            if f["op"] == op and (f["n"] == n or (f.get("sticky") and n >= f["n"])):
                self.fired.append((op, n, f["kind"]))
                self.ctx.mark("fault", op, n, f["kind"])
                self.ctx.fault(f["kind"] + "@" + op)
                if f["kind"] == "RACE":
                    return "RACE"
                if f["kind"] == "EINTR":  # the call is repeated, as io.FileIO does (PEP 475)
                    return self.step(op, path)
                raise make_fault(f["kind"], path)
        return None

    def chunk(self, op, n):
        seq = self.plan.get(op + "_chunks")
        if not seq or n <= 0:
            return n
        k = seq[(self.counts.get(op, 1) - 1) % len(seq)]
        if k < n:
            self.ctx.count("fault:short_" + op)
            return max(1, k)
        return n

    def open_handles(self):
        return [h for h in self.handles if not h.closed]


class SimRaw(io.RawIOBase):
    """The lowest layer of a simulated file."""

    def __init__(self, fs, path, mode, opener=None):
        self._fs = fs
        self.name = path
        self.mode = mode
        self._f = None
        fs.step("open", path)
        if fs.overlay and not opener and "r" in mode:
            path = fs.overlay.get(os.path.realpath(path), path)
        self._f = io.FileIO(path, mode, opener=opener) if opener else io.FileIO(path, mode)
        fs.handles.append(self)

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")  # keeps native code from writing past the seam

    def readinto(self, b):
        self._fs.step("read", self.name)
        n = self._fs.chunk("read", len(b))
        data = self._f.read(n)
        b[: len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        fs = self._fs
        b = bytes(b)
        fs.step("write", self.name)
        n = fs.chunk("write", len(b))
        quota = fs.plan.get("quota")
        if quota is not None:
            room = quota - fs.written
            if room <= 0 and n:
                fs.fired.append(("write", fs.written, "ENOSPC"))
                fs.ctx.fault("ENOSPC(disk full)")
                fs.ctx.mark("full", fs.written)
                raise make_fault("ENOSPC", self.name)
            n = min(n, room)
        n = self._f.write(b[:n])
        fs.written += n
        return n

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def close(self):
        if self.closed or self._f is None:
            super().close()
            return
        try:
            self._f.close()
            super().close()
        finally:
            if not self._fs.dead:
                self._fs.step("close", self.name)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = CUR
    if fs is None or not fs.owns(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimRaw(fs, os.fspath(file), rawmode, opener)
    try:
        line_buffering = buffering == 1 and not binary
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else fs.plan.get("buf", io.DEFAULT_BUFFER_SIZE)
        if "+" in rawmode:
            buffer = io.BufferedRandom(raw, size)
        elif raw.readable():
            buffer = io.BufferedReader(raw, size)
        else:
            buffer = io.BufferedWriter(raw, size)
        if binary:
            return buffer
        text = io.TextIOWrapper(buffer, encoding or fs.plan.get("encoding"), errors, newline, line_buffering)
        text.mode = mode
        if fs.plan.get("text_chunk"):
            text._CHUNK_SIZE = fs.plan["text_chunk"]  # how much text is collected before it reaches the buffer
        return text
    except BaseException:
        raw.close()
        raise


def sim_mkdir(path, mode=0o777, *, dir_fd=None):
    fs = CUR
    if fs is None or dir_fd is not None or not fs.owns(path):
        return _real_mkdir(path, mode) if dir_fd is None else _real_mkdir(path, mode, dir_fd=dir_fd)
    if fs.step("mkdir", path) == "RACE":  # somebody else created it just before
        _real_mkdir(path, mode)
    return _real_mkdir(path, mode)


class SimClock:
    """A wall clock that does what the plan says: [[start], deltas...] cycled per call."""

    def __init__(self, plan):
        self.now = float(plan.get("start", 1.7e9))
        self.deltas = plan.get("deltas", [0.001])
        self.i = 0

    def tick(self):
        d = self.deltas[self.i % len(self.deltas)]
        self.i += 1
        self.now += d
        return self.now


CLOCK = None


def _clock(name):
    real = _real_time[name]

    def f(*a):
        if CLOCK is None:
            return real(*a)
        if name == "sleep":
            CLOCK.now += float(a[0])
            return None
        t = CLOCK.tick()
        return int(t * 1e9) if name.endswith("_ns") else t

    f.__name__ = name
    return f


class SimConsole(io.TextIOBase):
    """stdout/stderr of the simulated process; a write or flush may fail as planned."""

    def __init__(self, ctx, plan=None, encoding="utf-8"):
        self.ctx = ctx
        self.plan = plan or {}
        self.n = 0
        self.parts = []
        self.fired = []
        self._enc = self.plan.get("encoding", encoding)

    @property
    def encoding(self):
        return self._enc

    errors = "strict"

    def writable(self):
        return True

    def isatty(self):
        return bool(self.plan.get("tty"))

    def _step(self, op):
        n = self.n
        self.n += 1
        for f in self.plan.get("faults", ()):
            if f["n"] == n or (f.get("sticky") and n >= f["n"]):
                self.fired.append((op, n, f["kind"]))
                self.ctx.mark("console", n, f["kind"])
                self.ctx.fault(f["kind"] + "@console")
                raise make_fault(f["kind"], "<stdout>")

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        self._step("write")
        if self._enc not in ("utf-8",):
            try:
                s.encode(self._enc)
            except UnicodeEncodeError:
                self.fired.append(("write", self.n, "ENCODE"))
                self.ctx.fault("ENCODE@console")
                raise
        self.parts.append(s)
        return len(s)

    def flush(self):
        self._step("flush")

    def text(self):
        return "".join(self.parts)


class Interrupter:
    """Raise an exception on entry of the k-th function of the package (asynchronous interruption, failed allocation)."""

    def __init__(self, ctx, k, kind, files=None):
        self.ctx, self.k, self.kind = ctx, k, kind
        self.files = files  # only functions of these modules
        self.n = 0
        self.fired = None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def _trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(PKG) and (
            self.files is None or frame.f_code.co_filename[len(PKG):] in self.files
        ):
            n = self.n
            self.n += 1
            if n == self.k and self.fired is None:
                self.fired = frame.f_code.co_name
                self.ctx.mark("interrupt", n, self.kind)
                self.ctx.fault(self.kind + "@call")
                sys.settrace(None)
                raise make_fault(self.kind)
        return None

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class StepBudget:
    """Bound the number of lines the package executes; deterministic detection of lack of progress."""

    class Exceeded(BaseException):
        pass

    def __init__(self, limit):
        self.limit = limit
        self.n = 0

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.limit:
                raise StepBudget.Exceeded()
        return self._local

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


def install():
    """Replace the names; without an active simulation they behave as before."""
    builtins.open = sim_open
    io.open = sim_open
    os.mkdir = sim_mkdir
    for n in _real_time:
        setattr(time, n, _clock(n))


def install_numpy():
    """Replace the copy of open which numpy.savetxt keeps."""
    import numpy as np

    ds = np.lib._datasource
    ds._file_openers._load()
    ds._file_openers._file_openers[None] = sim_open


class sim_files:
    """Activate a SimFS."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global CUR
        self.old, CUR = CUR, self.fs
        return self.fs

    def __exit__(self, *a):
        global CUR
        CUR = self.old
        return False


class sim_clock:
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        global CLOCK
        self.old, CLOCK = CLOCK, self.clock
        return self.clock

    def __exit__(self, *a):
        global CLOCK
        CLOCK = self.old
        return False


class sim_console:
    def __init__(self, console):
        self.console = console

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.console
        return self.console

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old
        return False


class SimId:
    """id() of the package's modules: unique among living objects, reused as soon as an object is gone (as CPython's addresses are, but repeatable)."""

    def __init__(self):
        self.of = {}  # real id -> (object, token)
        self.free = []  # tokens of dead objects, last one first
        self.next = 0x7F0000000000

    def sweep(self):
        again = True
        while again:  # (objects kept alive by dead ones only)
            again = False
            for k in list(self.of):
                entry = self.of[k]
                if sys.getrefcount(entry[0]) <= 2:  # the entry and the argument
                    del self.of[k]
                    self.free.append(entry[1])
                    again = True
                entry = None

    def __call__(self, obj):
        key = id(obj)
        if key in self.of:
            return self.of[key][1]
        self.sweep()
        if self.free:
            token = self.free.pop()
        else:
            token = self.next
            self.next += 64
        self.of[key] = (obj, token)
        return token


def sim_id():
    """Give the package's modules a repeatable id()."""
    f = SimId()
    for name, m in sorted(sys.modules.items()):
        if name.split(".")[0] == "pyGCodeDecode" and not hasattr(m, "id"):
            m.id = f
