"""Deterministic simulator for the Python side of the repository.

A run is a pure function of its plan (scenario, parameters, operations, faults).
All file access of the code under test goes through a faulty file layer with a
simulated clock for modification times, threads are scheduled by the simulator
at bytecode granularity, and a process life can be killed at any traced line or
system call, after which only the files remain.
"""
import _thread
import builtins
import collections
import errno
import gc
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import signal
import stat as stat_mod
import sys
import tempfile
import threading
import time
import traceback
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
CODE_ROOT = REPO + "/scripts/"

_real = {
    "open": io.open, "os_open": os.open, "stat": os.stat, "lstat": os.lstat, "mkdir": os.mkdir,
    "rmdir": os.rmdir, "unlink": os.unlink, "remove": os.remove, "rename": os.rename,
    "replace": os.replace, "utime": os.utime, "chmod": os.chmod, "listdir": os.listdir,
    "scandir": os.scandir, "os_write": os.write, "os_close": os.close, "fsync": os.fsync,
    "truncate": os.truncate, "link": os.link, "symlink": os.symlink,
    "time": time.time, "time_ns": time.time_ns, "monotonic": time.monotonic,
    "monotonic_ns": time.monotonic_ns, "perf_counter": time.perf_counter,
    "perf_counter_ns": time.perf_counter_ns, "sleep": time.sleep,
    "Lock": threading.Lock, "RLock": threading.RLock, "get_ident": threading.get_ident,
    "getpid": os.getpid, "fork": os.fork, "_exit": os._exit, "read": os.read, "pipe": os.pipe,
    "ftruncate": os.ftruncate, "fstat": os.fstat, "get_native_id": threading.get_native_id,
    "access": os.access,
}

HARNESS_FAILED = 97


class HarnessError(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Killed(BaseException):
    """Raised only in the parent: the process life ended by a simulated kill."""


R = None  # the current run


class Run:
    def __init__(self, plan, root):
        self.plan = plan
        self.root = root
        self.hist = []
        self.probes = collections.Counter()
        self.fired = collections.Counter()
        self.fired_log = []
        self.counts = {}
        self.points = 0
        self.point_faults = frozenset()
        self._op = -1
        self.clock_ns = 1_000_000_000 * 1_000_000_000
        self.mono_ns = 5_000 * 1_000_000_000
        self.start_ns = self.mono_ns
        self.armed = 0       # file faults and points enabled
        self.killable = False
        self.actor = None    # callback(index) for concurrent outside edits
        self.pipe_w = None
        self.fds = {}
        self.events = []     # what the code under test did, survives a simulated kill
        self.sched = None
        self.switches = 0
        self.steps = 0
        self.name_n = 0
        self.faultmap = {}
        for f in plan.get("faults", []):
            self.faultmap.setdefault((f["op"], f["site"], f["n"]), []).append(f)

    @property
    def op(self):
        return self._op

    @op.setter
    def op(self, v):
        self.flush_points()
        self._op = v
        self.points = self.counts.get((v, "point"), 0)
        self.point_faults = frozenset(n for (o, s, n) in self.faultmap if o == v and s == "point")

    def flush_points(self):
        if self.points:
            self.counts[(self._op, "point")] = self.points

    # ---- history ----
    def h(self, *a):
        self.hist.append(" ".join(str(x) for x in a).replace(self.root, "<root>"))

    def event(self, *a):
        self.events.append(list(a))

    def probe(self, name):
        self.probes[name] += 1

    # ---- time ----
    def tick(self, ns=1_000_000):
        self.clock_ns += ns
        self.mono_ns += ns

    def now(self):
        return self.clock_ns

    # ---- faults ----
    def count(self, site):
        k = (self.cur_op(), site)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return n

    def cur_op(self):
        if self.sched is not None and self.sched.cur is not None:
            return self.sched.cur.op
        return self.op

    def fault(self, site):
        """The fault planned for this occurrence of the site, or None."""
        n = self.count(site)
        fs = self.faultmap.get((self.cur_op(), site, n))
        if not fs:
            return None
        kind = fs[0]["kind"]
        self.fired["%s:%s" % (site, kind.split("#")[0])] += 1
        self.fired_log.append([self.cur_op(), site, n, kind])
        self.h("fault", self.cur_op(), site, n, kind)
        return kind

    def point(self, where):
        """A moment at which the process can be killed or interrupted, or files edited by others."""
        if not self.armed:
            return
        self.points += 1
        if self.points - 1 not in self.point_faults:
            return
        n = self.points - 1
        kind = self.faultmap[(self._op, "point", n)][0]["kind"]
        self.fired["point:" + kind.split("#")[0]] += 1
        self.fired_log.append([self._op, "point", n, kind])
        self.h("fault", self._op, "point", n, kind)
        if kind == "kill":
            self.kill()
        elif kind == "interrupt":
            raise KeyboardInterrupt()
        elif kind.startswith("actor") and self.actor is not None:
            armed, self.armed = self.armed, 0
            try:
                self.actor(int(kind.split("#")[1]))
            finally:
                self.armed = armed

    def kill(self):
        if self.pipe_w is None:
            raise HarnessError("kill outside of a process life")
        self.h("killed")
        self.probe("killed")
        _send(self.pipe_w, ("killed", None, self.export()))
        _real["_exit"](0)

    # ---- process lives ----
    def export(self):
        self.flush_points()
        return dict(points=self.points, hist=self.hist, probes=self.probes, fired=self.fired, fired_log=self.fired_log,
                    counts=self.counts, clock_ns=self.clock_ns, mono_ns=self.mono_ns,
                    events=self.events, switches=self.switches, steps=self.steps,
                    name_n=self.name_n)

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, v)

    def life(self, fn, trace=True):
        """Run fn in its own process; returns (status, value): ok, error, killed."""
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = _real["pipe"]()
        pid = _real["fork"]()
        if pid == 0:
            code = 0
            try:
                _real["os_close"](r)
                self.pipe_w = w
                self.armed = 1
                self.killable = True
                # only the first, fault-free run needs to count the points of every operation
                if trace and (self.point_faults or not self.faultmap):
                    sys.settrace(_tracer)
                try:
                    val = fn()
                    sys.settrace(None)
                    self.armed = 0
                    out = ("ok", val, self.export())
                except Violation as v:
                    sys.settrace(None)
                    self.armed = 0
                    out = ("violation", (v.cls, v.msg), self.export())
                except HarnessError:
                    sys.settrace(None)
                    traceback.print_exc()
                    _real["_exit"](HARNESS_FAILED)
                except BaseException as e:
                    sys.settrace(None)
                    self.armed = 0
                    out = ("error", describe_error(e), self.export())
                _send(w, out)
            except BaseException:
                traceback.print_exc()
                code = HARNESS_FAILED
            finally:
                _real["_exit"](code)
        _real["os_close"](w)
        data = _recv(r)
        _real["os_close"](r)
        _, st = os.waitpid(pid, 0)
        if data is None or os.waitstatus_to_exitcode(st) != 0:
            raise HarnessError("process life ended with status %s" % st)
        status, val, exported = pickle.loads(data)
        self.merge(exported)
        if status == "violation":
            raise Violation(*val)
        return status, val


def describe_error(e):
    return "%s: %s" % (type(e).__name__, str(e).splitlines()[0] if str(e) else "")


def _send(fd, obj):
    data = pickle.dumps(obj)
    off = 0
    while off < len(data):
        off += _real["os_write"](fd, data[off:off + 65536])


def _recv(fd):
    parts = []
    while True:
        b = _real["read"](fd, 1 << 16)
        if not b:
            break
        parts.append(b)
    return b"".join(parts) or None


def violate(cls, msg):
    raise Violation(cls, msg.replace(R.root, "<root>") if R else msg)


# ---- tracing -----------------------------------------------------------------
def _tracer(frame, event, arg):
    if not frame.f_code.co_filename.startswith(CODE_ROOT):
        return None
    return _local_line


def _local_line(frame, event, arg):
    if event == "line":
        r = R
        if r.armed:
            if r.points in r.point_faults:
                r.point("line")
            else:
                r.points += 1
    return _local_line


def _on_instruction(code, offset):
    r = R
    if r is not None and r.sched is not None:
        r.sched.point()


def trace_instructions(*more):
    """Make every bytecode of the loaded repository code (and of more files) a possible switch."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "simulator")
    mon.register_callback(tool, mon.events.INSTRUCTION, _on_instruction)
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) in seen or not c.co_filename.startswith((CODE_ROOT,) + more):
            continue
        seen.add(id(c))
        mon.set_local_events(tool, c, mon.events.INSTRUCTION)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


# ---- files -------------------------------------------------------------------
ERR = {
    "ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
    "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "EPERM": errno.EPERM, "ENOENT": errno.ENOENT,
    "EBUSY": errno.EBUSY,
}


def inside(path):
    if R is None:
        return False
    if isinstance(path, int):
        return path in R.fds
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == R.root or p.startswith(R.root + "/")


def touch(path):
    R.tick()
    t = R.clock_ns
    try:
        _real["utime"](path, ns=(t, t))
    except OSError:
        pass


def touch_parent(path):
    R.tick()
    t = R.clock_ns
    try:
        _real["utime"](os.path.dirname(os.path.abspath(path)) or ".", ns=(t, t))
    except OSError:
        pass


def seam(site, path=None):
    """Point before a system call; raises the planned error."""
    if not R.armed:
        return None
    R.tick(10_000)
    R.point(site)
    kind = R.fault(site)
    if kind in ERR:
        e = ERR[kind]
        raise OSError(e, os.strerror(e), str(path) if path is not None else None)
    return kind


class SimRaw(io.FileIO):
    def __init__(self, file, mode="r", closefd=True, opener=None, path=None):
        super().__init__(file, mode, closefd, opener)
        self._path = path

    def write(self, b):
        if R is None or not R.armed:
            n = super().write(b)
        else:
            kind = seam("write", self._path)
            b = memoryview(b).cast("B")
            if kind == "short" and len(b) > 1:
                b = b[:max(1, len(b) // 2)]
            elif kind == "torn-kill":
                super().write(b[:len(b) // 2])
                R.kill()
            n = super().write(b)
        if R is not None and self._path is not None:
            touch(self._path)
        return n

    def readinto(self, b):
        if R is not None and R.armed:
            kind = seam("read", self._path)
            if kind == "short" and len(b) > 1:
                m = memoryview(b).cast("B")
                return super().readinto(m[:max(1, len(m) // 2)])
        return super().readinto(b)

    def readall(self):
        if R is not None and R.armed:
            seam("read", self._path)
        return super().readall()

    def read(self, n=-1):
        if R is not None and R.armed:
            seam("read", self._path)
        return super().read(n)

    def truncate(self, size=None):
        r = super().truncate(size)
        if R is not None and self._path is not None:
            touch(self._path)
        return r

    def close(self):
        if self.closed:
            return
        bad = None
        if R is not None and R.armed and sys.exc_info()[0] is not HarnessError:
            try:
                seam("close", self._path)
            except OSError as e:
                bad = e
        super().close()
        if bad:
            raise bad


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
    if R is None or not inside(file):
        if R is not None and R.armed and any(c in mode for c in "wax+") and not isinstance(file, int) \
                and os.fspath(file) != os.devnull:
            raise HarnessError("write outside of the scratch directory: %s" % (file,))
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = R.fds[file] if isinstance(file, int) else os.path.abspath(os.fspath(file))
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    writing = any(c in raw_mode for c in "wax+")
    if not isinstance(file, int):
        seam("open", path)
    existed = os.path.lexists(path) if not isinstance(file, int) else True
    raw = SimRaw(file, raw_mode, closefd, opener, path)
    if "w" in raw_mode or (writing and not existed):
        touch(path)
        if not existed:
            touch_parent(path)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else 8192
    if "+" in raw_mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


def _guard_write(path):
    if R is not None and R.armed and not inside(path):
        raise HarnessError("change outside of the scratch directory: %s" % (path,))


def _wrap_path(name, site, mutates, two=False):
    real = _real[name]

    def f(path, *a, **kw):
        if R is None or not R.armed:
            r = real(path, *a, **kw)
            if R is not None and mutates and inside(path):
                touch_parent(path)
                if two and a:
                    touch_parent(a[0])
            return r
        if mutates:
            _guard_write(path)
            if two and a:
                _guard_write(a[0])
        if not inside(path):
            return real(path, *a, **kw)
        seam(site, path)
        r = real(path, *a, **kw)
        if mutates and not isinstance(path, int):
            touch_parent(path)
            if two and a:
                touch_parent(a[0])
        return r

    f.__name__ = name
    return f


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if R is None or not inside(path):
        if R is not None and R.armed and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise HarnessError("write outside of the scratch directory: %s" % (path,))
        return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
    seam("open", path)
    existed = os.path.lexists(path)
    fd = _real["os_open"](path, flags, mode, dir_fd=dir_fd)
    R.fds[fd] = os.path.abspath(path)
    if flags & os.O_TRUNC or (flags & os.O_CREAT and not existed):
        touch(path)
        touch_parent(path)
    return fd


def sim_os_write(fd, data):
    if R is None or fd not in R.fds:
        return _real["os_write"](fd, data)
    kind = seam("write", R.fds[fd])
    if kind == "short" and len(data) > 1:
        data = data[:max(1, len(data) // 2)]
    n = _real["os_write"](fd, data)
    touch(R.fds[fd])
    return n


def sim_os_close(fd):
    if R is not None:
        R.fds.pop(fd, None)
    return _real["os_close"](fd)


def sim_fsync(fd):
    if R is not None and R.armed:
        seam("fsync")
    return _real["fsync"](fd)


def sim_utime(path, times=None, *, ns=None, **kw):
    if R is None:
        return _real["utime"](path, times, **kw) if ns is None else _real["utime"](path, ns=ns, **kw)
    if R.armed:
        _guard_write(path)
        seam("utime", path)
    if times is None and ns is None:
        R.tick()
        return _real["utime"](path, ns=(R.clock_ns, R.clock_ns), **kw)
    return _real["utime"](path, times, **kw) if ns is None else _real["utime"](path, ns=ns, **kw)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        if R is None:
            return "n%d" % random.getrandbits(40)
        R.name_n += 1
        return "tmp%05d" % R.name_n


# ---- time --------------------------------------------------------------------
def _maybe_step():
    """The system clock may be stepped between any two readings of any clock."""
    R.tick(1000)
    if R.sched is not None:
        kind = R.fault("time")
        if kind:
            R.clock_ns += CLOCK_STEPS[int(kind.split("#")[1]) % len(CLOCK_STEPS)]


def _sim_time_ns():
    if R is None:
        return _real["time_ns"]()
    _maybe_step()
    return R.clock_ns


CLOCK_STEPS = [-3600 * 10**9, -10**9, -2 * 10**6, 5 * 10**9, 86400 * 10**9]


def _sim_mono_ns():
    if R is None:
        return _real["monotonic_ns"]()
    _maybe_step()
    return R.mono_ns


def _sim_sleep(s):
    if R is None:
        return _real["sleep"](s)
    R.tick(int(s * 1e9))
    if R.sched is not None:
        R.sched.yield_now()


# ---- threads -----------------------------------------------------------------
class SimThread:
    def __init__(self, sched, idx, fn):
        self.sched = sched
        self.idx = idx
        self.fn = fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.op = -1
        self.state = "ready"
        self.blocked_on = None
        self.error = None
        self.quiet = 0


class Sched:
    """Runs real threads one at a time; switches only where the plan says, or when blocked."""

    def __init__(self, run, order=None):
        self.run = run
        self.threads = []
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.failure = None
        self.order = order or []
        self.steps = 0

    def spawn(self, fn):
        t = SimThread(self, len(self.threads), fn)
        self.threads.append(t)
        return t

    def _body(self, t):
        t.baton.acquire()
        if self.failure is None:
            try:
                t.fn()
            except BaseException as e:
                if isinstance(e, (Violation, HarnessError)):
                    if self.failure is None:
                        self.failure = e
                else:
                    t.error = e
        t.state = "done"
        self._next_after(t)

    def _next_after(self, t):
        nxt = self.pick(t)
        if nxt is None:
            self.cur = None
            if self.failure is None and any(x.state == "blocked" for x in self.threads):
                self.failure = Violation("deadlock", "threads wait for each other forever")
            if self.failure is not None and any(x.state != "done" for x in self.threads):
                pass  # remaining threads stay parked; the process ends with the run
            self.main.release()
        else:
            self.cur = nxt
            nxt.baton.release()

    def pick(self, after):
        n = len(self.threads)
        for k in range(1, n + 1):
            t = self.threads[(after.idx + k) % n]
            if t.state == "ready" and t is not after:
                return t
        return None

    def go(self):
        global R
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        self.run.sched = self
        first = self.threads[self.order[0] if self.order else 0]
        self.cur = first
        first.baton.release()
        self.main.acquire()
        self.run.sched = None
        if self.failure is not None:
            raise self.failure

    def _switch(self, me, nxt):
        self.run.switches += 1
        self.cur = nxt
        nxt.baton.release()
        me.baton.acquire()
        if self.failure is not None:
            raise HarnessError("run already failed")

    def point(self):
        me = self.cur
        if me is None or me.quiet:
            return
        self.steps += 1
        self.run.steps += 1
        kind = self.run.fault("switch")
        if kind is None:
            return
        k = int(kind.split("#")[1])
        ready = [t for t in self.threads if t.state == "ready" and t is not me]
        if not ready:
            return
        self._switch(me, ready[k % len(ready)])

    def yield_now(self):
        me = self.cur
        if me is None:
            return
        nxt = self.pick(me)
        if nxt is not None:
            self._switch(me, nxt)

    def block(self, lock):
        me = self.cur
        me.state = "blocked"
        me.blocked_on = lock
        nxt = self.pick(me)
        if nxt is None:
            self.failure = Violation("deadlock", "threads wait for each other forever")
            self.main.release()
            me.baton.acquire()  # parked for good
        self._switch(me, nxt)

    def wake(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.blocked_on is lock:
                t.state = "ready"
                t.blocked_on = None


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        s = R.sched if R is not None else None
        return s.cur if s is not None and s.cur is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        s = R.sched if R is not None else None
        if s is not None and s.cur is not None:
            s.point()
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if s is None or s.cur is None:
                if not blocking:
                    return False
                raise Violation("deadlock", "lock is never released")
            if not blocking or timeout == 0:
                return False
            R.probe("lock-contended")
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = R.sched if R is not None else None
            if s is not None and s.cur is not None:
                s.wake(self)
                s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is self._me()


class SimRLock(SimLock):
    reentrant = True


def _sim_ident():
    if R is not None and R.sched is not None and R.sched.cur is not None:
        return 7001 + R.sched.cur.idx
    if R is not None:
        return 7000
    return _real["get_ident"]()


class quiet:
    """Model code of a threaded scenario: no switches inside."""

    def __enter__(self):
        self.t = R.sched.cur if R.sched is not None else None
        if self.t is not None:
            self.t.quiet += 1

    def __exit__(self, *a):
        if self.t is not None:
            self.t.quiet -= 1
        return False


def install():
    """Put the seams in place (once, before any run)."""
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_os_close
    os.fsync = sim_fsync
    os.utime = sim_utime
    for name, site, mut, two in [
            ("stat", "stat", False, False), ("lstat", "stat", False, False),
            ("mkdir", "mkdir", True, False), ("rmdir", "unlink", True, False),
            ("unlink", "unlink", True, False), ("remove", "unlink", True, False),
            ("rename", "rename", True, True), ("replace", "rename", True, True),
            ("chmod", "chmod", True, False), ("listdir", "readdir", False, False),
            ("scandir", "readdir", False, False), ("truncate", "write", True, False)]:
        setattr(os, name, _wrap_path(name, site, mut, two))
    os.supports_fd = set(os.supports_fd)
    for fn in ("stat", "chmod", "listdir", "scandir", "truncate", "utime"):
        os.supports_fd.add(getattr(os, fn))
    os.supports_follow_symlinks = set(os.supports_follow_symlinks) | {os.stat, os.chmod, os.utime}
    time.time = lambda: _sim_time_ns() / 1e9
    time.time_ns = _sim_time_ns
    time.monotonic = lambda: _sim_mono_ns() / 1e9
    time.monotonic_ns = _sim_mono_ns
    time.perf_counter = lambda: _sim_mono_ns() / 1e9
    time.perf_counter_ns = _sim_mono_ns
    time.sleep = _sim_sleep
    threading.get_ident = _sim_ident
    threading.get_native_id = _sim_ident
    os.getpid = lambda: 4242 if R is not None else _real["getpid"]()
    shutil._USE_CP_SENDFILE = False
    tempfile._get_candidate_names = lambda: _Names()
    os.umask(0o022)


def sim_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ---- helpers for scenarios (never faulted) -----------------------------------
class unarmed:
    def __enter__(self):
        self.a = R.armed
        R.armed = 0

    def __exit__(self, *a):
        R.armed = self.a
        return False


def put(path, data):
    with unarmed():
        p = os.path.join(R.root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        b = data.encode() if isinstance(data, str) else data
        fd = _real["os_open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            off = 0
            while off < len(b):
                off += _real["os_write"](fd, b[off:])
        finally:
            _real["os_close"](fd)
        touch(p)
    return p


def link(path, target):
    """A symbolic link as old as the simulated moment of its creation."""
    with unarmed():
        p, t = os.path.join(R.root, path), os.path.join(R.root, target)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        _real["symlink"](t, p) if "symlink" in _real else os.symlink(t, p)
        os.utime(p, ns=(R.clock_ns, R.clock_ns), follow_symlinks=False)


def get(path):
    p = os.path.join(R.root, path)
    try:
        fd = _real["os_open"](p, os.O_RDONLY)
    except OSError:
        return None
    try:
        return _recv(fd) or b""
    finally:
        _real["os_close"](fd)


def digest(obj):
    return int.from_bytes(hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).digest()[:8],
                          "little")
