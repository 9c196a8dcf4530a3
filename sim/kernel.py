"""The simulator: storage seam, scheduler, clock, fault plan, event log of one run.

One run lives in one forked process.  Everything that can vary in it is decided by the
scenario (plain JSON data, generated from one seed): which operations are performed,
what the storage does on each call, which thread runs after each yield point, and which
numeric routines fail.  Nothing here reads a real clock or an unseeded random source.
"""

from __future__ import annotations

import ctypes
import dis
import errno
import gc
import hashlib
import os
import random
import stat as statmod
import sys
import threading
import traceback
import _thread

OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "seek", 6: "stat", 7: "access",
       8: "rename", 9: "link", 10: "unlink", 11: "truncate", 12: "sync", 13: "mkdir",
       14: "rmdir", 15: "symlink", 16: "chmod", 17: "opendir", 18: "escape"}

MAX_STEPS = 200_000       # storage calls of one library call before it counts as stuck
MAX_YIELDS = 3_000_000


class Violation(Exception):
    """The property is broken.  `code` names the class of the violation."""

    def __init__(self, code: str, message: str):
        super().__init__(f"{code}: {message}")
        self.code = code
        self.message = message


class Stuck(BaseException):
    """A run exceeded its step budget (raised where Python code can see it)."""


def in_library(exc):
    """Did the exception pass through library code?"""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PACKAGE_DIR):
            return True
        tb = tb.tb_next
    return False


class Outcome:
    """What one library call did: returned `value` or raised `exc`."""

    __slots__ = ("value", "exc", "steps", "warned")

    def __init__(self, value=None, exc=None, steps=0):
        self.value = value
        self.exc = exc
        self.steps = steps

    @property
    def ok(self):
        return self.exc is None

    def describe(self):
        if self.exc is None:
            return "returned"
        return f"raised {type(self.exc).__name__}: {str(self.exc)[:160]}"


# --------------------------------------------------------------------------- locks
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT: "Context | None" = None
PACKAGE_DIR = os.path.join(os.environ.get("SIM_TREE", "/repo"), "ramannoodle")


class SimLock:
    """Lock made by the library; blocks in simulated rather than real fashion."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._count and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            ctx = CURRENT
            if ctx is None or ctx.sched is None or not ctx.sched.wait_for(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise Violation("deadlock", "a lock of the library is never released")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return bool(self._count)

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


def install_lock_seam():
    """Locks created from library code become SimLocks (installed before import)."""

    def from_library():
        return sys._getframe(2).f_code.co_filename.startswith(PACKAGE_DIR)

    def lock():
        return SimLock() if from_library() else _real_lock()

    def rlock():
        return SimLock(True) if from_library() else _real_rlock()

    threading.Lock = lock
    threading.RLock = rlock


# --------------------------------------------------------------------------- threads
class SimThread:
    def __init__(self, sched, index, name, fn):
        self.sched = sched
        self.index = index
        self.name = name
        self.fn = fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.done = False
        self.blocked_on = None
        self.wake_at = 0.0
        self.error = None
        self.yields = 0
        self.heat = 0.0


STORES = {"STORE_ATTR": 1.0, "DELETE_ATTR": 1.0, "STORE_GLOBAL": 1.0, "STORE_DEREF": 1.0, "STORE_SUBSCR": 0.1,
          "DELETE_SUBSCR": 0.1}


def store_lines(code):
    """Lines of a code object that may change what other threads see."""
    lines, line = {}, None
    for op in dis.get_instructions(code):
        if op.starts_line:
            line = op.positions.lineno if op.positions else line
        heat = STORES.get(op.opname, 0.0)
        where = op.positions.lineno if op.positions and op.positions.lineno else line
        if heat:
            lines[where] = max(heat, lines.get(where, 0.0))
    return lines


def library_code():
    """Code objects of everything the library defines."""
    found, todo = {}, []
    for name, module in list(sys.modules.items()):
        if name.split(".")[0] == "ramannoodle":
            todo += list(vars(module).values())
    seen = set()
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, type(library_code.__code__)):
            if v.co_filename.startswith(PACKAGE_DIR):
                found[id(v)] = v
                todo += v.co_consts
        elif isinstance(v, (classmethod, staticmethod)):
            todo.append(v.__func__)
        elif isinstance(v, property):
            todo += [f for f in (v.fget, v.fset, v.fdel) if f]
        elif isinstance(v, type):
            if v.__module__.split(".")[0] == "ramannoodle":
                todo += list(vars(v).values())
        elif callable(v):
            todo += [getattr(v, n) for n in ("__code__", "__wrapped__", "func", "__func__") if hasattr(v, n)]
    return list(found.values())


class Scheduler:
    """Runs real threads one at a time; who runs next is decided at yield points."""

    def __init__(self, ctx, plan, lines):
        self.ctx = ctx
        self.plan = plan or {"mode": "explicit", "switches": []}
        self.lines = lines
        self.threads: list[SimThread] = []
        self.current: SimThread | None = None
        self.count = 0
        self.switches: list[list[int]] = []
        self.trail = hashlib.sha256()
        self.rng = random.Random(self.plan.get("seed", 0))
        self.explicit = {int(a): int(b) for a, b in self.plan.get("switches", [])}
        self.main_sem = _real_lock()
        self.main_sem.acquire()
        self.local = threading.local()
        self.active = False
        self.started = 0
        self.heat = 0.0

    def spawn(self, name, fn):
        self.threads.append(SimThread(self, len(self.threads), name, fn))

    def me(self):
        return getattr(self.local, "thread", None)

    def _watch(self):
        """Yield points between the lines (or bytecodes) of library code."""
        mon = sys.monitoring
        event = mon.events.INSTRUCTION if self.lines == "ops" else mon.events.LINE
        mon.use_tool_id(4, "sim")

        hot = {}

        def step(code, where):
            if self.active:
                if hot:
                    heat = hot[code].get(where, 0.0) if code in hot else 0.0
                    me = self.me()
                    if me is not None:      # before and after a line that stores something
                        me.heat, heat = heat, max(heat, me.heat)
                    self.heat = heat
                self.yield_point(f"{code.co_name}:{where}")
                self.heat = 0.0

        mon.register_callback(4, event, step)
        for code in library_code():
            mon.set_local_events(4, code, event)
            if self.plan.get("hot") and event == mon.events.LINE:
                hot[code] = store_lines(code)

    def _body(self, t):
        t.sem.acquire()
        self.local.thread = t
        self.ctx.local.bypass = True
        self.ctx.local.thread = t.index
        try:
            t.fn()
        except BaseException as exc:  # pylint: disable=broad-except
            t.error = exc
        finally:
            t.done = True
            self.finished(t)

    def run(self):
        if not self.threads:
            return
        if self.lines:
            self._watch()
        for t in self.threads:
            real = threading.Thread(target=self._body, args=(t,), daemon=True)
            real.start()
        self.active = True
        first = self._choose(None)
        self.current = first
        first.sem.release()
        self.main_sem.acquire()
        self.active = False
        if self.lines:
            sys.monitoring.free_tool_id(4)
        for t in self.threads:
            if t.error is not None:
                raise t.error

    def runnable(self):
        return [t for t in self.threads if not t.done and t.blocked_on is None
                and t.wake_at <= self.ctx.now]

    def _choose(self, me):
        """Decide who runs after yield point number `self.count`."""
        index = self.count
        self.count += 1
        if self.count > MAX_YIELDS:
            self.ctx.stuck("yield budget exceeded")
        options = self.runnable()
        while not options:
            asleep = [t for t in self.threads if not t.done and t.blocked_on is None]
            if not asleep:
                for t in self.threads:  # locks may have been released meanwhile
                    if not t.done and t.blocked_on is not None \
                            and not t.blocked_on.locked():
                        t.blocked_on = None
                options = self.runnable()
                if not options:
                    return None
                break
            self.ctx.now = min(t.wake_at for t in asleep)
            options = self.runnable()
        default = me if me in options else options[0]
        if self.plan["mode"] == "random":
            if me not in options or self.rng.random() < max(self.plan["p"], self.heat * self.plan.get("hot", 0)):
                choice = options[self.rng.randrange(len(options))]
            else:
                choice = me
        else:
            choice = default
            if index in self.explicit:
                wanted = self.explicit[index]
                for t in options:
                    if t.index == wanted:
                        choice = t
        if choice is not default:
            self.switches.append([index, choice.index])
        return choice

    def yield_point(self, what):
        me = self.me()
        if me is None or not self.active or self.current is not me:
            return
        me.yields += 1
        target = self._choose(me)
        if target is not me:
            self._transfer(me, target, what)

    def _transfer(self, me, target, what):
        self.trail.update(f"{me.index}>{target.index}@{what};".encode())
        self.current = target
        target.sem.release()
        me.sem.acquire()

    def wait_for(self, lock):
        me = self.me()
        if me is None or not self.active:
            return False
        me.blocked_on = lock
        others = [t for t in self.threads if not t.done and t is not me]
        for t in others:
            if t.blocked_on is not None and not t.blocked_on.locked():
                t.blocked_on = None
        target = self._choose(None) if any(t.blocked_on is None for t in others) else None
        if target is None:
            me.blocked_on = None
            return False
        if target is not me:
            self._transfer(me, target, "lock")
        me.blocked_on = None
        return True

    def sleep(self, seconds):
        me = self.me()
        if me is None or not self.active:
            self.ctx.now += seconds
            return
        me.wake_at = self.ctx.now + seconds
        target = self._choose(None)
        if target is not None and target is not me:
            self._transfer(me, target, "sleep")

    def finished(self, t):
        for other in self.threads:
            if other.blocked_on is not None and not other.blocked_on.locked():
                other.blocked_on = None
        if all(x.done for x in self.threads):
            self.active = False
            self.main_sem.release()
            return
        target = self._choose(None)
        if target is None:
            self.active = False
            t.error = t.error or Violation("deadlock", "no thread can make progress")
            self.main_sem.release()
            return
        self.trail.update(f"{t.index}>{target.index}@end;".encode())
        self.current = target
        target.sem.release()


# --------------------------------------------------------------------------- context
CB = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int, ctypes.c_char_p,
                      ctypes.c_char_p, ctypes.c_long, ctypes.c_long,
                      ctypes.POINTER(ctypes.c_long * 2))
CBDONE = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int, ctypes.c_char_p,
                          ctypes.c_long, ctypes.c_long)


class Context:
    """Everything one run needs; handed to a property's `run(ctx, scenario)`."""

    def __init__(self, scratch, seed=0):
        self.scratch = scratch
        self.root = os.path.join(scratch, "disk")
        self.local = threading.local()
        self.local.bypass = True
        self.local.thread = -1
        self.log = hashlib.sha256()
        self.log_lines: list[str] | None = None
        self.events = 0
        self.steps = 0
        self.step_base = 0
        self.now = 0.0
        self.stats: dict[str, int] = {}
        self.sched: Scheduler | None = None
        self.faults: list[dict] = []
        self.delivery: dict = {}
        self.rng = random.Random(seed)
        self.numfail: dict | None = None
        self.harness_error = None
        self.escapes: list[str] = []
        self.open_fds: dict[int, str] = {}
        self.violation_sink = None      # set by the runner: called when stuck
        self.mutations: list[tuple] = []
        self.switches: list[list[int]] = []
        self.trails: list[str] = []
        self.on_step = None             # optional hook before a storage call
        self.fired: list[str] = []
        self.nontrivial = False
        self.notes: dict = {}           # survives a simulated crash
        self.grow = None

    def crash(self):
        """End the process here, as kill -9 or a power cut of the machine would."""
        self.event("crash")
        self.violation_sink("crash", None)
        os._exit(66)

    # ---- logging and probes
    def event(self, *parts):
        line = "|".join(str(p) for p in parts)
        self.events += 1
        self.log.update(line.encode() + b"\n")
        if self.log_lines is not None:
            self.log_lines.append(line)

    def probe(self, name, count=1):
        self.stats[name] = self.stats.get(name, 0) + count

    def fail(self, code, message):
        raise Violation(code, message)

    def require(self, condition, code, message):
        if not condition:
            raise Violation(code, message)

    def stuck(self, why):
        if self.violation_sink is not None:
            self.violation_sink("no-progress", why)
        raise Stuck(why)

    # ---- files (harness side; bypasses the seam)
    def path(self, *names):
        return os.path.join(self.root, *names)

    def put(self, name, data):
        was, self.local.bypass = self.local.bypass, True
        try:
            os.makedirs(os.path.dirname(self.path(name)), exist_ok=True)
            with open(self.path(name), "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode())
        finally:
            self.local.bypass = was
        return self.path(name)

    def get(self, name):
        was, self.local.bypass = self.local.bypass, True
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None
        except IsADirectoryError:
            return None
        finally:
            self.local.bypass = was

    def tree(self):
        """All files on the simulated disk and their content."""
        was, self.local.bypass = self.local.bypass, True
        try:
            result = {}
            for base, dirs, names in os.walk(self.root):
                for n in dirs:
                    p = os.path.join(base, n)
                    result[os.path.relpath(p, self.root) + "/"] = b""
                for n in names:
                    p = os.path.join(base, n)
                    st = os.lstat(p)
                    if statmod.S_ISREG(st.st_mode):
                        with open(p, "rb") as f:
                            data = f.read()
                    else:
                        data = b"<special>"
                    result[os.path.relpath(p, self.root)] = data
            return result
        finally:
            self.local.bypass = was

    # ---- library calls
    def call(self, label, fn, *args, **kwargs) -> Outcome:
        """Run one library call under the simulator; exceptions become outcomes."""
        self.event("call", self.local.thread, label)
        before = self.step_base = self.steps
        self.held = []
        was, self.local.bypass = self.local.bypass, False
        try:
            value = fn(*args, **kwargs)
            out = Outcome(value=value, steps=self.steps - before)
        except Violation:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            if not in_library(exc):
                raise           # a mistake of the harness, not an answer of the library
            self.held = self.leaked() if self.sched is None else []     # while the caller handles it
            exc.__traceback__ = None
            exc.__cause__ = None
            exc.__context__ = None
            out = Outcome(exc=exc, steps=self.steps - before)
        finally:
            self.local.bypass = was
        if self.harness_error:
            raise RuntimeError("harness: " + self.harness_error)
        self.event("result", self.local.thread, label,
                   "ok" if out.ok else type(out.exc).__name__)
        return out

    def threads(self, plan, bodies, lines=False):
        """Run named bodies as simulated threads under a schedule plan."""
        self.sched = Scheduler(self, plan, lines)
        for name, fn in bodies:
            self.sched.spawn(name, fn)
        try:
            self.sched.run()
        finally:
            self.switches = self.sched.switches
            self.trails.append(self.sched.trail.hexdigest()[:16])
            self.probe("yield-points", self.sched.count)
            self.probe("context-switches", len(self.sched.switches))
            self.event("schedule", self.sched.count, self.trails[-1])
            self.sched = None

    held = ()

    def leaked(self):
        """Files the library opened and did not close."""
        if not self.open_fds:
            return []
        gc.collect()
        return sorted(self.open_fds.values())

    # ---- fault plan
    def arm(self, faults=(), delivery=None):
        """Install fault specs (counters start at zero) and a delivery mode."""
        self.faults = [dict(f, seen=0, hits=0) for f in faults]
        self.delivery = dict(delivery or {})
        if "seed" in self.delivery:
            self.delivery["rng"] = random.Random(self.delivery["seed"])

    def disarm(self):
        fired = [f for f in self.faults if f["hits"]]
        self.faults = []
        self.delivery = {}
        return fired

    def fault_fired(self):
        return any(f["hits"] for f in self.faults)

    def hard_fault_fired(self):
        return any(f["hits"] and f.get("err") not in ("EINTR", None)
                   for f in self.faults)

    def _hit(self, f, op):
        f["hits"] += 1
        name = f.get("err") or ("crash" if f.get("crash") else "stall")
        self.probe(f"fault:{name}@{op}")
        self.fired.append(f"{name}@{op}")

    def _decide(self, op, fd, path, path2, n, flags, d):
        name = OPS.get(op, str(op))
        rel = path[len(self.root) + 1:] if path.startswith(self.root) else path
        if name == "escape":
            self.escapes.append(f"{OPS.get(n, n) if flags == 0 else 'open'} {path}")
            return
        self.steps += 1
        self.now += 2e-5 + (n * 1e-9 if name in ("read", "write") else 0)
        if self.steps - self.step_base > MAX_STEPS:
            self.stuck("storage-call budget exceeded")
        if self.on_step is not None:
            self.on_step(name, rel)
        if self.sched is not None:
            self.sched.yield_point(name)
        limit = None
        # delivery mode: how much one transfer moves
        if name in ("read", "write") and n > 0:
            mode = self.delivery.get(name)
            if mode:
                if mode[0] == "fixed":
                    limit = mode[1]
                else:
                    limit = self.delivery["rng"].randint(1, mode[1])
            p = self.delivery.get("eintr", 0)
            if p and self.delivery["rng"].random() < p:
                d[0], d[1] = 1, errno.EINTR
                self.probe(f"fault:EINTR@{name}")
                self.event("io", self.local_thread(), name, rel, n, "EINTR")
                return
            p = self.delivery.get("stall", 0)
            if p and self.delivery["rng"].random() < p:
                self.probe(f"fault:stall@{name}")
                pause = self.delivery["rng"].uniform(0.001, 30.0)
                if self.sched is not None:
                    self.sched.sleep(pause)
                else:
                    self.now += pause
        for f in self.faults:
            if f["op"] != name:
                if not (f["op"] == "any" or (f["op"] == "stat" and name == "access")):
                    continue
            if f.get("path") is not None and f["path"] not in (rel, path2):
                continue
            if f.get("thread") is not None and f["thread"] != self.local_thread():
                continue
            if "bytes" in f:            # position in the file
                pos = os.lseek(fd, 0, os.SEEK_CUR)
                if f["hits"] and not f.get("sticky", True):
                    continue
                if pos >= f["bytes"]:
                    pass
                elif pos + (n if limit is None else min(n, limit)) > f["bytes"]:
                    room = f["bytes"] - pos
                    limit = room if limit is None else min(limit, room)
                    if f.get("crash"):
                        pass
                    else:
                        continue
                else:
                    continue
            else:
                k = f["seen"]
                f["seen"] += 1
                if k < f["at"] or (f.get("count", 1) >= 0
                                   and k >= f["at"] + f.get("count", 1)):
                    continue
            self._hit(f, name)
            if f.get("stall"):
                if self.sched is not None:
                    self.sched.sleep(f["stall"])
                else:
                    self.now += f["stall"]
                continue
            if f.get("crash"):
                d[0] = 3
                d[1] = max(0, f.get("arg", 0) if limit is None else limit)
                if self.violation_sink is not None:
                    self.event("io", self.local_thread(), name, rel, n, "crash", d[1])
                    self.violation_sink("crash", None)
                return
            d[0], d[1] = 1, getattr(errno, f["err"])
            self.event("io", self.local_thread(), name, rel, n, f["err"])
            return
        if limit is not None and limit < n:
            d[0], d[1] = 2, max(1, limit)
            self.probe(f"fault:short@{name}")
        if name in ("write", "truncate", "rename", "unlink", "link", "symlink", "mkdir", "rmdir", "chmod") or (
                name == "open" and flags & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR)):
            self.mutations.append((name, rel))
        self.event("io", self.local_thread(), name, rel, n, d[0], d[1])

    def local_thread(self):
        return getattr(self.local, "thread", -2)

    def _done(self, op, fd, path, result, err):
        name = OPS.get(op)
        if name == "open" and result == 0:
            self.open_fds[fd] = path[len(self.root) + 1:]
        elif name == "close":
            self.open_fds.pop(fd, None)
        if err:
            self.event("err", name, err)

    # ---- wiring to the shim
    def install(self):
        global CURRENT
        os.makedirs(self.root, exist_ok=True)
        CURRENT = self
        lib = ctypes.CDLL(None)

        def decide(op, fd, path, path2, n, flags, d):
            if getattr(self.local, "bypass", False):
                return
            self.local.bypass = True
            try:
                self._decide(op, fd, os.fsdecode(path or b""),
                             os.fsdecode(path2 or b""), n, flags, d.contents)
            except BaseException:  # pylint: disable=broad-except
                self.harness_error = traceback.format_exc()
            finally:
                self.local.bypass = False

        def done(op, fd, path, result, err):
            if getattr(self.local, "bypass", False):
                return
            self.local.bypass = True
            try:
                self._done(op, fd, os.fsdecode(path or b""), result, err)
            except BaseException:  # pylint: disable=broad-except
                self.harness_error = traceback.format_exc()
            finally:
                self.local.bypass = False

        seed_everything(0)
        self._cbs = (CB(decide), CBDONE(done))
        lib.shim_configure.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p]
        lib.shim_configure.restype = None
        lib.shim_configure(os.fsencode(self.root),
                           ctypes.cast(self._cbs[0], ctypes.c_void_p),
                           ctypes.cast(self._cbs[1], ctypes.c_void_p))
        os.chdir(self.root)


def seed_everything(seed):
    """Pin every pseudo-random source a library might draw from."""
    import tempfile
    import numpy
    import torch
    random.seed(seed)
    numpy.random.seed(seed)
    torch.manual_seed(seed)

    class Names:
        def __init__(self):
            self.n = 0

        def __iter__(self):
            return self

        def __next__(self):
            self.n += 1
            return f"sim{self.n:05d}"

    tempfile._name_sequence = Names()


def install_clock_seam():
    """Library code that reads or waits for time gets the simulated clock."""
    import time

    def library_calls():
        return CURRENT is not None and sys._getframe(2).f_code.co_filename.startswith(PACKAGE_DIR)

    real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep", "time_ns")}

    def sleep(seconds):
        if not library_calls():
            return real["sleep"](seconds)
        if CURRENT.sched is not None:
            return CURRENT.sched.sleep(seconds)
        CURRENT.now += seconds
        return None

    def clock(name):
        def now(*args):
            if not library_calls():
                return real[name]()
            value = 1_700_000_000.0 + CURRENT.now
            return int(value * 1e9) if name.endswith("_ns") else value
        return now

    time.sleep = sleep
    for name in ("time", "monotonic", "perf_counter", "time_ns"):
        setattr(time, name, clock(name))
    import tqdm.std

    def tqdm_time():
        return CURRENT.now if CURRENT is not None else real["time"]()

    tqdm.std.time = tqdm_time


# --------------------------------------------------------------------------- numeric seam
NUMERIC = [("scipy.interpolate", "make_interp_spline"), ("numpy.linalg", "inv"),
           ("numpy.linalg", "norm"), ("spglib", "get_symmetry"), ("numpy", "append")]


def install_numeric_seams():
    """Numeric routines the library calls can be made to fail (failing allocations)."""
    import importlib
    for modname, fname in NUMERIC:
        module = importlib.import_module(modname)
        original = getattr(module, fname)

        def wrapper(*args, _original=original, _name=fname, **kwargs):
            ctx = CURRENT
            if ctx is not None and ctx.numfail is not None:
                caller = sys._getframe(1).f_code.co_filename
                if caller.startswith(PACKAGE_DIR):
                    plan = ctx.numfail
                    if plan["fn"] in (_name, "any"):
                        k = plan["seen"] = plan.get("seen", 0) + 1
                        if k - 1 == plan["at"]:
                            plan["hits"] = plan.get("hits", 0) + 1
                            ctx.probe(f"fault:{plan['exc']}@{_name}")
                            ctx.fired.append(f"{plan['exc']}@{_name}")
                            ctx.event("numfail", _name, k)
                            if plan["exc"] == "MemoryError":
                                raise MemoryError("simulated allocation failure")
                            import numpy
                            raise numpy.linalg.LinAlgError("simulated failure")
            return _original(*args, **kwargs)

        wrapper.__name__ = fname
        wrapper.__doc__ = original.__doc__
        setattr(module, fname, wrapper)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("ramannoodle"):
                for key, value in list(vars(m).items()):
                    if value is original:
                        setattr(m, key, wrapper)
