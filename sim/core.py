"""Process-level seams and small helpers shared by the zygote and the property modules.

install() must run before `ics` (or dateutil) is imported: it replaces the lock
primitives by cooperative ones, pins uuid/pid sources and attaches the LD_PRELOAD shim.
"""
import _thread
import ctypes
import hashlib
import os
import random
import sys
import time

real_allocate_lock = _thread.allocate_lock
real_RLock = _thread.RLock
real_get_ident = _thread.get_ident


class Violation(Exception):
    """The property does not hold.  cls: stable class used by the minimiser; msg: details."""

    def __init__(self, cls, msg=""):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class StepLimit(BaseException):
    """Raised inside the code under test when a run exceeds its step budget (liveness)."""


class Interrupt(KeyboardInterrupt):
    """The injected interruption."""


class InjectedFailure(Exception):
    """A failure of a kind the code under test has never heard of."""


class InjectedExit(BaseException):
    """Like InjectedFailure, but not an Exception (as asyncio.CancelledError)."""


# what sources, zones, iterables and callbacks supplied by the caller fail with
EXC = {
    "os": lambda m: OSError(5, m), "conn": lambda m: ConnectionResetError(104, m), "timeout": lambda m: TimeoutError(m), "eof": EOFError, "value": ValueError, "type": TypeError,
    "key": KeyError, "index": IndexError, "lookup": LookupError, "attr": AttributeError, "runtime": RuntimeError, "assert": AssertionError, "notimpl": NotImplementedError,
    "overflow": OverflowError, "zerodiv": ZeroDivisionError, "unicode": lambda m: UnicodeDecodeError("utf-8", b"\xff", 0, 1, m), "name": NameError, "import": ImportError, "stopasync": StopAsyncIteration,
    "mem": MemoryError, "recursion": RecursionError, "warning": UserWarning, "other": InjectedFailure, "kbd": Interrupt, "exit": SystemExit, "base": InjectedExit,
}
EXC_KINDS = sorted(EXC)
CATCH = (Exception, Interrupt, SystemExit, InjectedExit)  # everything but the simulator's own signals


class SimStop(BaseException):
    """Unwinds parked threads when a run is abandoned."""


CURRENT = None  # the active thread scheduler (sched.Sched) or None


# ---------------------------------------------------------------- cooperative locks
class SimLock:
    """Behaves like a plain lock; a contended acquire parks the simulated thread."""

    __slots__ = ("_l", "_w", "__weakref__")

    def __init__(self):
        self._l = real_allocate_lock()
        self._w = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        s = CURRENT
        if s is None or not s.inside():
            return self._l.acquire(True, timeout)
        while not self._l.acquire(False):
            if not s.block(self, timeout):
                return False
        return True

    __enter__ = acquire

    def release(self):
        self._l.release()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._l = real_allocate_lock()


class SimRLock:
    __slots__ = ("_lock", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = real_get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != real_get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == real_get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._owner == real_get_ident() else 0

    def _at_fork_reinit(self):
        self._lock = SimLock()
        self._owner, self._count = None, 0


class _ThreadShim:
    """Stands in for the `_thread` module inside importlib._bootstrap."""

    def __init__(self):
        self.allocate_lock = SimLock
        self.RLock = SimRLock

    def __getattr__(self, n):
        return getattr(_thread, n)


_lib = None


def install():
    global _lib
    import importlib._bootstrap as ib
    import threading
    import uuid

    ib._thread = _ThreadShim()
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    # uuid: only the OS entropy and the clock, both simulated
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    uuid._node = 0x0242AC110002
    uuid._GETTERS = []
    _lib = ctypes.CDLL(None)
    _lib.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
    _lib.sim_rand_fail.argtypes = [ctypes.c_int]
    _lib.sim_rand.argtypes = [ctypes.c_int, ctypes.c_uint64]
    _lib.sim_clock_now.restype = ctypes.c_int64
    _lib.sim_clock_reads.restype = ctypes.c_long
    _lib.sim_rand_reads.restype = ctypes.c_long
    _lib.sim_rand_state.restype = ctypes.c_uint64
    for f in ("sim_fs_file", "sim_fs_prefix", "sim_fs_fail", "sim_fs_short", "sim_fs_count", "sim_fs_fired"):
        getattr(_lib, f)
    _lib.sim_fs_file.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_long]
    _lib.sim_fs_fail.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
    _lib.sim_fs_short.argtypes = [ctypes.c_long]
    _lib.sim_fs_count.restype = _lib.sim_fs_fired.restype = ctypes.c_long
    os.getpid = lambda: 4242


def set_clock(ns, tick=0):
    _lib.sim_clock(1, int(ns), int(tick))


def clock_now():
    return _lib.sim_clock_now()


class FS:
    """Faults of real files below some directories, injected under the C library: replaced contents, error
    codes for a path, the n-th open/stat/read failing, short reads.  `with FS(...)` switches them on."""

    KINDS = {"any": 0, "open": 1, "stat": 2, "read": 3}

    def __init__(self, prefixes, files=(), fails=(), short=0):
        self.prefixes, self.files, self.fails, self.short = prefixes, files, fails, short
        self.fired = self.ops = 0

    def __enter__(self):
        l = _lib
        l.sim_fs_reset()
        for p in self.prefixes:
            l.sim_fs_prefix(os.fsencode(p))
        for path, what in self.files:
            if isinstance(what, int):
                l.sim_fs_file(os.fsencode(path), what, None, -1)
            else:
                l.sim_fs_file(os.fsencode(path), 0, what, len(what))
        for kind, nth, err in self.fails:
            l.sim_fs_fail(self.KINDS[kind], nth, err)
        l.sim_fs_short(self.short)
        l.sim_fs_on(1)
        return self

    def __exit__(self, *a):
        self.fired, self.ops = _lib.sim_fs_fired(), _lib.sim_fs_count(0)
        _lib.sim_fs_on(0)
        _lib.sim_fs_reset()


def clock_reads():
    return _lib.sim_clock_reads()


def set_rand(seed):
    _lib.sim_rand(1, seed & (2**64 - 1))


def fail_rand(err):
    """From now on reading OS entropy fails with this errno (0: works again)."""
    _lib.sim_rand_fail(err)


def rand_state():
    return _lib.sim_rand_state()


def set_tz(posix):
    os.environ["TZ"] = posix
    time.tzset()


def h(*parts):
    return hashlib.sha256(repr(parts).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def rng_for(seed, prop, index):
    d = hashlib.sha256(f"{seed}/{prop}/{index}".encode()).digest()
    return random.Random(int.from_bytes(d[:16], "big"))


class Run:
    """Recorder of one simulated run: event log, counters, coverage, simulated time."""

    def __init__(self):
        self.events = []
        self.counts = {}
        self.covs = set()
        self.simtime = 0.0
        self.nontrivial = False
        self._d = hashlib.sha256()
        self.carry = None

    def log(self, *ev):
        s = repr(ev)
        self._d.update(s.encode("utf-8", "surrogatepass"))
        if len(self.events) < 4000:
            self.events.append(s)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def cov(self, *key):
        self.covs.add(h(*key))

    def digest(self):
        return self._d.hexdigest()[:24]


def describe_exc(e):
    return f"{type(e).__name__}: {e}"[:400]


def ics_prefix():
    return os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "ics") + os.sep


def tb(e):
    import traceback

    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
