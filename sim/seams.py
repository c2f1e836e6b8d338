"""The seams: every source of nondeterminism PaConvert touches goes through here.

install() replaces the Python-level file system, clock and formatter entry points by dispatching wrappers. It is called
once, in a fresh interpreter, *before* paconvert is imported, so that `from os import listdir` style imports are caught
as well. While no simulated disk is active the wrappers call straight through. In a simulated process (a forked child
of the pristine interpreter) activate(Disk(...)) makes all operations below the scratch root go through the simulated
disk, which logs them, applies the fault plan, permutes listings, splits reads and writes, kills the process, or lets
"another program" edit files between two operations.

The simulated disk keeps its bytes in a scratch directory of the real file system (tmpfs), so code that uses entry
points not listed here still works; the audit hook sees such accesses too.
"""
import builtins
import errno
import io
import os
import random
import sys
import threading
import time

R = {}  # the real functions


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimRunaway(BaseException):
    """The simulated process exceeded its step budget."""


DISK = None  # active Disk or None
CLOCK = None  # active Clock or None
FORMAT = None  # active FormatPlan or None
ENCODING = None  # locale default text encoding, None: the real one

ERRNO = {n: getattr(errno, n) for n in (
    "EIO", "EACCES", "ENOSPC", "ENOENT", "EMFILE", "EROFS", "EDQUOT", "EPERM", "ESTALE", "ETIMEDOUT", "EEXIST", "EBUSY", "ELOOP", "ENAMETOOLONG", "ENXIO", "ENFILE", "ENOMEM", "EISDIR", "ETXTBSY",
    "EFBIG", "ENOTDIR", "EMLINK", "EAGAIN", "EINTR", "ENODEV", "ENOTCONN", "EPIPE", "EINVAL", "ECONNRESET", "EOVERFLOW")}


def oserr(name, path):
    return OSError(ERRNO[name], os.strerror(ERRNO[name]), path)


class Disk:
    def __init__(self, root, knobs=None, faults=(), edits=(), budget=200000, skip_prefixes=()):
        """faults: dicts {"op": index, "kind": ...}; edits: dicts {"op": index, "do": callable}."""
        self.root = root.rstrip("/") + "/"
        k = dict(order=None, buf=8192, short=None, sendfile="ok")
        k.update(knobs or {})
        self.knobs = k
        self.plan = {f["op"]: f for f in faults if "op" in f}
        self.stats = {f["stat"]: f["kind"] for f in faults if "stat" in f}  # entries whose attributes cannot be read
        self.links = {f["stat"] for f in faults if f.get("follow")}  # or only those of what they point to
        self.perm = bool(k.get("perm"))  # the process has no privileges: permission bits count
        self.match = [dict(f) for f in faults if "op" not in f and "stat" not in f]  # {"on": kind, "path": prefix, "nth": n, "kind": ...}
        self.edits = {}
        for e in edits:
            self.edits.setdefault(e["op"], []).append(e)
        self.budget = budget
        self.ops = []  # (kind, relative path)
        self.fired = []  # (kind of fault, kind of op, path)
        self.dead = False
        self.on_crash = None  # ends the simulated process on the spot
        self.handles = {}  # id -> path of open SimRaw
        self.fds = {}  # fd -> (path, writable) opened by os.open
        self.writes = []  # paths of mutating calls seen by the audit hook
        self.written = []  # files opened for writing, for the power loss model
        self.legal = {"short_read": 0, "short_write": 0, "permuted_listing": 0}
        self.rng_short = random.Random("short:%s" % k["short"]) if k["short"] is not None else None

    def inside(self, path):
        return path.startswith(self.root) or path + "/" == self.root

    def rel(self, path):
        return path[len(self.root):] if path.startswith(self.root) else path

    def deny(self, kind, path):
        self.fired.append(("EACCES", "perm_" + kind, self.rel(path)))
        raise oserr("EACCES", path)

    def mode(self, path):
        try:
            return R["stat"](path).st_mode
        except OSError:
            return None

    def reach(self, path, kind, follow=False):
        """Without privileges, every directory above has to be searchable."""
        if follow:
            for _ in range(8):
                try:
                    if R["lstat"](path).st_mode & 0o170000 != 0o120000:
                        break
                    path = os.path.normpath(os.path.join(os.path.dirname(path), os.readlink(path)))
                except OSError:
                    break
                self.reach(path, kind)
        d = os.path.dirname(path)
        while len(d) >= len(self.root) - 1:
            m = self.mode(d)
            if m is not None and m & 0o40000 and not m & 0o100:
                self.deny(kind, path)
            d = os.path.dirname(d)

    def permit(self, kind, path):
        self.reach(path, kind, kind in ("open_r", "open_w", "listdir"))
        m = self.mode(path)
        if kind in ("open_r", "listdir"):
            if m is not None and not m & 0o400:
                self.deny(kind, path)
        elif kind == "open_w" and m is not None:
            if not m & 0o200:
                self.deny(kind, path)
        elif kind in ("open_w", "mkdir", "remove", "rename"):
            d = self.mode(os.path.dirname(path))
            if d is not None and not d & 0o200:
                self.deny(kind, path)

    def look(self, path, name="stat"):
        """The attributes of an entry are read."""
        e = self.stats.get(self.rel(path))
        if e and not (name == "lstat" and self.rel(path) in self.links):
            self.fired.append((e, "stat", self.rel(path)))
            raise oserr(e, path)
        if self.perm:
            self.reach(path, "stat", name == "stat")

    def op(self, kind, path):
        """Registers an operation; returns the fault planned for it, if any."""
        if self.dead:
            raise SimCrash()
        if self.perm:
            self.permit(kind, path)
        idx = len(self.ops)
        self.ops.append((kind, self.rel(path)))
        if idx >= self.budget:
            raise SimRunaway("more than %d file system operations" % self.budget)
        for e in self.edits.get(idx, ()):
            e["do"]()
            self.fired.append(("edit", kind, self.rel(path)))
        f = self.plan.get(idx)
        if f is None and self.match:
            f = self._match(kind, self.rel(path))
        if f is None:
            return None
        kind_f = f["kind"]
        self.fired.append((kind_f, kind, self.rel(path)))
        if kind_f == "crash" and not f.get("prefix"):
            self.die()
        if kind_f == "interrupt":
            raise KeyboardInterrupt()
        if kind_f in ERRNO and kind not in ("close_w", "sendfile", "write"):
            raise oserr(kind_f, path)
        return f

    def _match(self, kind, rel):
        for f in self.match:
            if kind in f["on"] and (rel == f["path"] if f.get("exact") else rel.startswith(f["path"])):
                n = f["nth"]
                f["nth"] = n - 1
                if n == 0 or (n < 0 and f.get("sticky")):
                    return f
        return None

    def die(self):
        self.dead = True
        if self.on_crash is not None:
            self.on_crash()
        raise SimCrash()

    def short_len(self, n):
        if self.rng_short is None or n <= 1:
            return n
        if self.rng_short.random() < 0.5:
            return n
        return self.rng_short.randint(1, n)


def _abspath(p):
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = R["getcwd"]() + "/" + p
    return os.path.normpath(p)


def _active(p):
    """Absolute path when the simulated disk is responsible for it, else None."""
    if DISK is None:
        return None
    a = _abspath(p)
    if a is not None and DISK.inside(a):
        return a
    return None


class SimRaw(io.RawIOBase):
    def __init__(self, path, mode, disk, fd=None, closefd=True):
        self._disk = disk
        self._path = path
        self.name = path
        self._w = any(c in mode for c in "wax+")
        if fd is None:
            disk.op("open_w" if self._w else "open_r", path)
            self._f = R["FileIO"](path, mode)
        else:  # opened by os.open before
            self._f = R["FileIO"](fd, mode, closefd)
            if closefd:
                disk.fds.pop(fd, None)
        self.mode = self._f.mode
        if self._w:
            disk.written.append(path)
        disk.handles[id(self)] = path

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        self._disk.op("write", self._path)
        return self._f.truncate(size)

    def readinto(self, b):
        d = self._disk
        d.op("read", self._path)
        n = len(b)
        m = d.short_len(n)
        if m < n:
            d.legal["short_read"] += 1
            data = self._f.read(m)
            b[: len(data)] = data
            return len(data)
        return self._f.readinto(b)

    def write(self, b):
        d = self._disk
        f = d.op("write", self._path)
        b = bytes(b)
        if f is not None:
            cut = int(len(b) * f.get("prefix", 0))
            if cut:
                _write_all(self._f, b[:cut])
            if f["kind"] == "crash":
                d.die()
            raise oserr(f["kind"], self._path)
        n = d.short_len(len(b))
        if n < len(b):
            d.legal["short_write"] += 1
        _write_all(self._f, b[:n])
        return n

    def close(self):
        if self.closed:
            return
        d = self._disk
        try:
            if d.dead:
                return
            f = d.op("close_w" if self._w else "close_r", self._path)
            if f is not None and self._w and f["kind"] in ERRNO:
                # delayed write-back failed: the tail never reached the disk
                os.ftruncate(self._f.fileno(), int(os.fstat(self._f.fileno()).st_size * f.get("prefix", 0)))
                raise oserr(f["kind"], self._path)
        finally:
            d.handles.pop(id(self), None)
            self._f.close()
            super().close()


def _write_all(f, b):
    while b:
        b = b[f.write(b):]


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if opener is not None and DISK is not None:
        flags = os.O_RDWR if "+" in mode else (os.O_RDONLY if "r" in mode else os.O_WRONLY)
        flags |= {"w": os.O_CREAT | os.O_TRUNC, "x": os.O_CREAT | os.O_EXCL, "a": os.O_CREAT | os.O_APPEND}.get(mode.strip("bt+")[0], 0)
        file, opener = opener(file, flags | os.O_CLOEXEC), None
    fd = None
    if isinstance(file, int) and DISK is not None and file in DISK.fds:
        fd, path = file, DISK.fds[file][0]
    else:
        path = _active(file)
    if path is None:
        if DISK is not None and DISK.dead:
            raise SimCrash()
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    if not binary and "t" not in mode and not set(mode) <= set("rwax+tU"):
        raise ValueError("invalid mode: %r" % mode)
    rawmode = "".join(c for c in mode if c in "rwax+")
    if len([c for c in rawmode if c in "rwax"]) != 1:
        raise ValueError("invalid mode: %r" % mode)
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    raw = SimRaw(path, rawmode, DISK, fd, closefd)
    raw.name = file if isinstance(file, str) else path
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = DISK.knobs["buf"] if buffering in (-1, 1) else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif raw._w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        if encoding in (None, "locale") and ENCODING is not None:
            encoding = ENCODING
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _wrap_path_op(name, kind, npaths=1):
    real = getattr(os, name)
    R[name] = real

    def wrapper(*a, **k):
        if DISK is not None:
            paths = [_active(p) for p in a[:npaths] if not isinstance(p, int)]
            paths = [p for p in paths if p]
            if paths:
                DISK.op(kind, paths[-1])
            elif DISK.dead:
                raise SimCrash()
        return real(*a, **k)

    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _sim_stat(name):
    real = R[name]

    def stat(path, *a, **k):
        if DISK is not None and (DISK.stats or DISK.perm) and not isinstance(path, int):
            p = _active(path)
            if p is not None:
                DISK.look(p, name)
        return real(path, *a, **k)

    stat.__name__ = name
    return stat


def sim_access(path, mode, *a, **k):
    if DISK is not None and (DISK.stats or DISK.perm):
        p = _active(path)
        if p is not None:
            try:
                DISK.look(p)
            except OSError:
                return False
            m = DISK.mode(p)
            if DISK.perm and m is not None and mode & ~(m >> 6) & 7:
                return False
    return R["access"](path, mode, *a, **k)


def _permute(names, path, key=lambda x: x):
    order = DISK.knobs["order"]
    names = sorted(names, key=key)
    if order is None or order == "sorted":
        return names
    if order == "reverse":
        return names[::-1]
    before = list(names)
    random.Random("order:%s:%s" % (order, DISK.rel(path))).shuffle(names)
    if names != before:
        DISK.legal["permuted_listing"] += 1
    return names


def _dir_path(path):
    if isinstance(path, int):
        return DISK.fds[path][0] if DISK is not None and path in DISK.fds else None
    return _active(path)


def sim_listdir(path="."):
    a = _dir_path(path)
    if a is None:
        return R["listdir"](path)
    DISK.op("listdir", a)
    return _permute(R["listdir"](path), a)


class SimScandir:
    def __init__(self, path, a):
        DISK.op("listdir", a)
        with R["scandir"](path) as it:
            self._l = iter(_permute(list(it), a, key=lambda e: e.name))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._l)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._l = iter(())


def sim_scandir(path="."):
    a = _dir_path(path)
    if a is None:
        return R["scandir"](path)
    return SimScandir(path, a)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    a = _active(path) if dir_fd is None else None
    if a is None:
        return R["os_open"](path, flags, mode, dir_fd=dir_fd)
    w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    DISK.op("open_w" if w else "open_r", a)
    fd = R["os_open"](path, flags, mode)
    if w:
        DISK.written.append(a)
    DISK.fds[fd] = (a, w)
    return fd


def sim_os_write(fd, data):
    if DISK is None or fd not in DISK.fds:
        return R["os_write"](fd, data)
    f = DISK.op("write", DISK.fds[fd][0])
    data = bytes(data)
    if f is not None:
        R["os_write"](fd, data[: int(len(data) * f.get("prefix", 0))])
        if f["kind"] == "crash":
            DISK.die()
        raise oserr(f["kind"], DISK.fds[fd][0])
    n = DISK.short_len(len(data))
    if n < len(data):
        DISK.legal["short_write"] += 1
    return R["os_write"](fd, data[:n])


def sim_os_read(fd, n):
    if DISK is None or fd not in DISK.fds:
        return R["os_read"](fd, n)
    DISK.op("read", DISK.fds[fd][0])
    return R["os_read"](fd, DISK.short_len(n))


def sim_os_close(fd):
    if DISK is not None and fd in DISK.fds:
        path, w = DISK.fds.pop(fd)
        if not DISK.dead:
            try:
                DISK.op("close_w" if w else "close_r", path)
            finally:
                R["os_close"](fd)
            return
    return R["os_close"](fd)


def _fd_path(fd):
    try:
        return R["readlink"]("/proc/self/fd/%d" % fd)
    except OSError:
        return "?"


def sim_sendfile(out_fd, in_fd, offset, count, *a, **k):
    if DISK is None:
        return R["sendfile"](out_fd, in_fd, offset, count, *a, **k)
    path = _fd_path(out_fd)
    if not DISK.inside(path):
        return R["sendfile"](out_fd, in_fd, offset, count, *a, **k)
    mode = DISK.knobs["sendfile"]
    f = DISK.op("sendfile", path)
    if f is not None:
        if f.get("prefix"):
            n = max(1, int(f.get("prefix", 0) * max(1, os.fstat(in_fd).st_size - (offset or 0))))
            R["sendfile"](out_fd, in_fd, offset, n)
        if f["kind"] == "crash":
            DISK.die()
        raise oserr(f["kind"], path)
    if mode == "unsupported":
        raise OSError(errno.EINVAL, "Invalid argument")
    if mode == "short":
        count = min(count, 1 + (DISK.rng_short or random.Random(7)).randrange(700))
        DISK.legal["short_write"] += 1
    return R["sendfile"](out_fd, in_fd, offset, count, *a, **k)


def sim_copy_file_range(src, dst, count, *a, **k):
    if DISK is not None:
        path = _fd_path(dst)
        if DISK.inside(path):
            f = DISK.op("sendfile", path)
            if f is not None:
                if f["kind"] == "crash":
                    DISK.die()
                raise oserr(f["kind"], path)
    return R["copy_file_range"](src, dst, count, *a, **k)


class Clock:
    """A clock that never looks at real time. mode: normal, frozen, back, jump, coarse."""

    def __init__(self, mode="normal", seed=0, start=None):
        self.mode, self.rng, self.t, self.m, self.reads = mode, random.Random("clock:%s" % seed), (1.7e9 if start is None else start), 1000.0, 0
        self.simulated = 0.0

    def _advance(self):
        self.reads += 1
        d = {"normal": 0.001, "frozen": 0.0, "coarse": 0.0}.get(self.mode)
        if self.mode == "coarse" and self.reads % 50 == 0:
            d = 0.015
        if self.mode == "back":
            d = -5.0 if self.rng.random() < 0.3 else 0.001
        if self.mode == "jump":
            d = self.rng.choice([0.001, 0.001, 3600.0, 86400.0 * 400])
        self.t += d
        self.m += max(0.0, d)  # the monotonic clocks never go back
        self.simulated += abs(d)

    def wall(self):
        self._advance()
        return self.t

    def mono(self):
        self._advance()
        return self.m

    def sleep(self, s):
        self.t += s
        self.m += s
        self.simulated += s


def _install_calendar():
    """The functions that show the time of day."""
    import datetime

    for name in ("monotonic", "perf_counter", "process_time"):
        setattr(time, name + "_ns", lambda real=getattr(time, name + "_ns"): int(CLOCK.mono() * 1e9) if CLOCK is not None else real())
    for name in ("localtime", "gmtime", "ctime"):
        setattr(time, name, lambda t=None, real=getattr(time, name): real(CLOCK.wall() if t is None and CLOCK is not None else t))
    strftime, asctime = time.strftime, time.asctime
    time.strftime = lambda f, t=None: strftime(f, time.localtime() if t is None else t)
    time.asctime = lambda t=None: asctime(time.localtime() if t is None else t)
    real, real_date = datetime.datetime, datetime.date

    class Kind(type):
        def __instancecheck__(cls, x):
            return isinstance(x, cls.__mro__[1])

        def __subclasscheck__(cls, x):
            return issubclass(x, cls.__mro__[1])

    class SimDate(real_date, metaclass=Kind):
        @classmethod
        def today(cls):
            return real_date.fromtimestamp(time.time())

    class SimDatetime(real, metaclass=Kind):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(time.time(), tz)

        @classmethod
        def today(cls):
            return real.fromtimestamp(time.time())

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    SimDate.__name__, SimDatetime.__name__ = "date", "datetime"
    datetime.date, datetime.datetime = SimDate, SimDatetime


ENTROPY = None  # random.Random behind os.urandom
IDENTITY = {}  # pid, host, cpus of the simulated machine


def _install_identity():
    """Randomness of the system and what tells one machine or process from another."""
    import platform
    import random as random_
    import socket

    def urandom(n):
        return ENTROPY.randbytes(n) if ENTROPY is not None else R["urandom"](n)

    os.urandom = random_._urandom = urandom
    os.getpid = lambda: IDENTITY.get("pid") or R["getpid"]()
    os.cpu_count = lambda: IDENTITY.get("cpus") or R["cpu_count"]()
    node, host = platform.node, socket.gethostname
    platform.node = lambda: IDENTITY.get("host") or node()
    socket.gethostname = lambda: IDENTITY.get("host") or host()


class FormatterCrash(Exception):
    pass


class FormatPlan:
    """Failures of black and isort. plan: {"black": {call index: exception name}, "isort": {...}}"""

    EXC = {"ValueError": ValueError, "RuntimeError": RuntimeError, "RecursionError": RecursionError, "MemoryError": MemoryError,
           "OSError": OSError, "KeyError": KeyError, "AssertionError": AssertionError, "UnicodeDecodeError": UnicodeError,
           "ImportError": ImportError, "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "SyntaxError": SyntaxError, "TypeError": TypeError, "AttributeError": AttributeError, "IndexError": IndexError,
           "NotImplementedError": NotImplementedError, "EOFError": EOFError, "ZeroDivisionError": ZeroDivisionError, "TimeoutError": TimeoutError, "Exception": Exception, "FormatterCrash": FormatterCrash}

    def __init__(self, plan):
        self.plan, self.calls, self.fired = plan, {"black": 0, "isort": 0}, []

    def call(self, which):
        i = self.calls[which]
        self.calls[which] += 1
        p = self.plan.get(which) or {}
        name = p.get(str(i), p.get("*"))
        if name:
            self.fired.append((which, name))
            if name == "InvalidInput":
                import black.parsing

                raise black.parsing.InvalidInput("injected %s failure" % which)
            if name.endswith("()"):
                raise self.EXC[name[:-2]]()
            if name.endswith("{}"):
                raise self.EXC[name[:-2]]("injected {0} {} %s %d \n\x00 failure", which)
            raise self.EXC[name]("injected %s failure" % which)


WRITE_EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod",
                "os.utime", "os.chown", "os.setxattr", "os.removexattr", "shutil.move", "shutil.rmtree"}
SUBPROC = {"subprocess.Popen", "os.system", "os.posix_spawn", "os.exec", "os.fork", "os.forkpty"}


def audit(event, args):
    d = DISK
    if d is None or d.dead:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            d.writes.append(("open", _abspath(path)))
    elif event in WRITE_EVENTS:
        for p in args[: 2 if event in ("os.rename", "os.link", "os.symlink", "shutil.move") else 1]:
            if isinstance(p, (str, bytes, os.PathLike)):
                a = _abspath(p)
                if event in ("os.link", "os.symlink", "shutil.move") and p is args[0] and event != "shutil.move":
                    continue
                d.writes.append((event, a))
    elif event in SUBPROC:
        d.writes.append((event, str(args[0])[:80] if args else ""))


# ---------------------------------------------------------------------------------------------------------------- locks
SCHED = None  # active thread scheduler or None
PKG = None  # directory whose code is scheduled line by line


class SimLock:
    """Lock of scheduled code: cooperative while a scheduler is active, a real lock otherwise."""

    def __init__(self, reentrant):
        self._re, self._owner, self._n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or timeout == 0:
                return False
            if SCHED is None:
                raise RuntimeError("deadlock: lock is held and no other thread is running")
            if not SCHED.blocked(self):
                if timeout > 0:
                    return False
        self._owner, self._n = me, self._n + 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # threading.Condition protocol
    def _is_owned(self):
        return self._owner == threading.get_ident()


def _lock_factory(real, reentrant):
    def make(*a, **k):
        f = sys._getframe(1)
        if PKG and f.f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return real(*a, **k)

    return make


def install(pkg):
    """Once per interpreter, before paconvert is imported."""
    global PKG
    PKG = pkg.rstrip("/") + "/"
    R.update(open=io.open, FileIO=io.FileIO, listdir=os.listdir, scandir=os.scandir, os_open=os.open, os_write=os.write,
             os_read=os.read, os_close=os.close, sendfile=os.sendfile, readlink=os.readlink, getcwd=os.getcwd,
             copy_file_range=os.copy_file_range, time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
             sleep=time.sleep, time_ns=time.time_ns, stat=os.stat, lstat=os.lstat, access=os.access, urandom=os.urandom, getpid=os.getpid,
             cpu_count=os.cpu_count)
    os.stat, os.lstat, os.access = _sim_stat("stat"), _sim_stat("lstat"), sim_access
    _install_identity()
    builtins.open = sim_open
    io.open = sim_open
    os.listdir, os.scandir = sim_listdir, sim_scandir
    os.open, os.write, os.read, os.close = sim_os_open, sim_os_write, sim_os_read, sim_os_close
    os.sendfile, os.copy_file_range = sim_sendfile, sim_copy_file_range
    for name, kind, n in (("mkdir", "mkdir", 1), ("remove", "remove", 1), ("unlink", "remove", 1), ("rmdir", "remove", 1),
                          ("rename", "rename", 2), ("replace", "rename", 2), ("link", "rename", 2), ("symlink", "rename", 2),
                          ("truncate", "write0", 1), ("chmod", "meta", 1), ("utime", "meta", 1)):
        _wrap_path_op(name, kind, n)
    import tokenize

    tokenize._builtin_open = sim_open
    time.time = lambda: CLOCK.wall() if CLOCK is not None else R["time"]()
    time.time_ns = lambda: int(CLOCK.wall() * 1e9) if CLOCK is not None else R["time_ns"]()
    time.monotonic = lambda: CLOCK.mono() if CLOCK is not None else R["monotonic"]()
    time.perf_counter = lambda: CLOCK.mono() if CLOCK is not None else R["perf_counter"]()
    time.process_time = lambda: CLOCK.mono() if CLOCK is not None else R["perf_counter"]()
    time.sleep = lambda s: CLOCK.sleep(s) if CLOCK is not None else R["sleep"](s)
    _install_calendar()
    threading.Lock = _lock_factory(threading.Lock, False)
    threading.RLock = _lock_factory(threading.RLock, True)

    import black
    import isort

    real_black, real_isort = black.format_str, isort.code

    def format_str(*a, **k):
        if FORMAT is not None:
            FORMAT.call("black")
        return real_black(*a, **k)

    def code(*a, **k):
        if FORMAT is not None:
            FORMAT.call("isort")
        return real_isort(*a, **k)

    black.format_str, isort.code = format_str, code
    isort.api.sort_code_string  # noqa: B018 (must exist)
