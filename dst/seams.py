"""The seams below ocbpy: clock, numpy memory, executed lines, logging.

Everything a run can observe that is not in its plan goes through one of
these, or through the in-memory file system of `simfs`.
"""
import ctypes
import gc
import logging
import os
import sys
import types

REPO = os.environ.get("DST_REPO", "/repo")


class SimCrash(BaseException):
    """The simulated process dies here: nothing after this point happens."""


class SimInterrupt(KeyboardInterrupt):
    """An asynchronous interrupt (Ctrl-C) delivered at a chosen line."""


class StepLimit(BaseException):
    """The operation used more executed lines than its budget."""


class HarnessError(Exception):
    """The simulator itself is broken (never a finding)."""


# --------------------------------------------------------------- C level shim
class Shim:
    lib = None

    @classmethod
    def load(cls):
        path = os.environ.get("DST_SHIM")
        if not path:
            raise HarnessError("DST_SHIM not set: start through dst.boot")
        lib = ctypes.CDLL(path)
        lib.dst_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        lib.dst_clock_reads.restype = ctypes.c_uint64
        lib.dst_handler.restype = ctypes.c_void_p
        lib.dst_mem.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int64]
        lib.dst_mem_cap.argtypes = [ctypes.c_uint64]
        lib.dst_mem_largest.restype = ctypes.c_uint64
        lib.dst_mem_count.restype = ctypes.c_int64
        lib.dst_mem_failed.restype = ctypes.c_int64
        cls.lib = lib
        import numpy._core._multiarray_umath as mu
        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p,
                                      ctypes.c_void_p]
        table = api.PyCapsule_GetPointer(mu._ARRAY_API, None)
        table = ctypes.cast(table, ctypes.POINTER(ctypes.c_void_p))
        cls.set_handler = ctypes.PYFUNCTYPE(ctypes.py_object,
                                            ctypes.py_object)(table[304])
        cls.get_handler = ctypes.PYFUNCTYPE(ctypes.py_object)(table[305])
        cls.capsule = api.PyCapsule_New(lib.dst_handler(), b"mem_handler",
                                        None)
        cls.default = cls.get_handler()


class Memory:
    """Seeded contents for fresh numpy memory; optional failing allocation.

    `cap` makes larger allocations fail; `largest` tells the largest request.
    """

    outer = [(0, 1, -1)]

    def __init__(self, seed=1, mode=1, fail_at=-1, cap=0):
        self.args = (mode, seed, fail_at)
        self.cap = cap

    def __enter__(self):
        self.old = Shim.set_handler(Shim.capsule)
        Shim.lib.dst_mem(*self.args)
        Shim.lib.dst_mem_cap(self.cap)
        self.outer.append(self.args)
        return self

    def count(self):
        return Shim.lib.dst_mem_count()

    def failed(self):
        return Shim.lib.dst_mem_failed()

    def __exit__(self, *exc):
        self.outer.pop()
        self.used = self.count()
        self.hits = self.failed()
        self.largest = Shim.lib.dst_mem_largest()
        Shim.lib.dst_mem_cap(0)
        Shim.lib.dst_mem(*self.outer[-1])
        Shim.set_handler(self.old)
        return False


class Clock:
    """CLOCK_REALTIME set to `now` (seconds), advancing `tick` s per reading."""

    def __init__(self, now, tick=0.0):
        self.now = int(round(now * 1e9))
        self.tick = int(round(tick * 1e9))

    def __enter__(self):
        Shim.lib.dst_clock(1, self.now, self.tick)
        return self

    def set(self, now):
        Shim.lib.dst_clock(1, int(round(now * 1e9)), self.tick)

    def __exit__(self, *exc):
        self.reads = Shim.lib.dst_clock_reads()
        Shim.lib.dst_clock(0, 0, 0)
        return False


# ------------------------------------------------------------ executed lines
def _codes_under(root):
    """All code objects of functions defined in files under `root`."""
    seen = set()

    def add(code):
        if code in seen:
            return
        seen.add(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                add(const)

    prefix = root.rstrip("/") + "/"
    skip = prefix + "tests/"
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            name = obj.__code__.co_filename
            if name.startswith(prefix) and not name.startswith(skip):
                add(obj.__code__)
    return seen


class Meter:
    """Counts executed source lines of ocbpy and acts at chosen ones.

    One global instance: `sys.monitoring` LINE events are enabled once on all
    of ocbpy's code objects, and `hook` (if set) is called for every one.
    """
    TOOL = 4
    installed = False
    steps = 0
    limit = None
    trip_at = None
    trip_exc = None
    hook = None
    active = False
    crossed = None     # set of (file, line) when coverage wanted

    @classmethod
    def install(cls):
        if cls.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(cls.TOOL, "dst")
        mon.register_callback(cls.TOOL, mon.events.LINE, cls._line)
        cls.codes = _codes_under(os.path.join(REPO, "ocbpy"))
        if len(cls.codes) < 50:
            raise HarnessError("found only {:d} ocbpy functions".format(
                len(cls.codes)))
        for code in cls.codes:
            mon.set_local_events(cls.TOOL, code, mon.events.LINE)
        cls.installed = True

    @classmethod
    def _line(cls, code, line):
        if not cls.active:
            return None
        cls.steps += 1
        if cls.hook is not None:
            cls.hook(code, line)
        if cls.trip_at is not None and cls.steps == cls.trip_at:
            cls.trip_at = None
            raise cls.trip_exc("at step {:d}".format(cls.steps))
        if cls.limit is not None and cls.steps > cls.limit:
            # Keep raising: code that swallows it must not hide a hang
            raise StepLimit("more than {:d} lines executed".format(cls.limit))
        return None


class Steps:
    """Run a block under a line budget; optionally interrupt at line k."""

    def __init__(self, limit=None, trip_at=None, trip_exc=SimInterrupt,
                 hook=None):
        self.cfg = (limit, trip_at, trip_exc, hook)

    def __enter__(self):
        self.saved = (Meter.steps, Meter.limit, Meter.trip_at, Meter.trip_exc,
                      Meter.hook, Meter.active)
        Meter.steps = 0
        Meter.limit, Meter.trip_at, Meter.trip_exc, Meter.hook = self.cfg
        Meter.active = True
        return self

    def __exit__(self, *exc):
        self.used = Meter.steps
        self.tripped = self.cfg[1] is not None and Meter.trip_at is None
        (steps, Meter.limit, Meter.trip_at, Meter.trip_exc, Meter.hook,
         Meter.active) = self.saved
        Meter.steps = steps + self.used
        if Meter.active and Meter.limit is not None \
                and Meter.steps > Meter.limit and exc[0] is None:
            raise StepLimit("more than {:d} lines executed".format(
                Meter.limit))
        return False


# ------------------------------------------------------------------- logging
class LogTrap(logging.Handler):
    """Collect ocbpy log records during a run."""

    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))

    def __enter__(self):
        import ocbpy
        self.logger = ocbpy.logger
        self.saved = (list(self.logger.handlers), self.logger.level,
                      self.logger.propagate)
        self.logger.handlers = [self]
        self.logger.setLevel(logging.DEBUG)
        self.logger.propagate = False
        return self

    def warnings(self):
        return [msg for lev, msg in self.lines
                if lev in ("WARNING", "ERROR", "CRITICAL")]

    def __exit__(self, *exc):
        (self.logger.handlers, level, self.logger.propagate) = self.saved
        self.logger.setLevel(level)
        return False


# ------------------------------------------------------------------- aacgmv2
def settle_aacgmv2():
    """Make magnetic local times a function of their arguments.

    aacgmv2's conversions between local time and longitude use the date some
    earlier call has left in its C library if that is less than a month away,
    which moves longitudes by up to 0.005 degrees.  Here each such conversion
    first sets its own date.
    """
    import aacgmv2._aacgmv2 as lib

    def first(val):
        return val[0] if isinstance(val, (list, tuple)) else val

    def wrap(func):
        def call(*args):
            try:
                lib.set_datetime(*[int(first(a)) for a in args[:6]])
            except Exception:
                pass
            return func(*args)
        return call
    for name in ("mlt_convert", "mlt_convert_arr", "inv_mlt_convert",
                 "inv_mlt_convert_arr"):
        setattr(lib, name, wrap(getattr(lib, name)))
