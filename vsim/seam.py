"""The seam: every nondeterministic or fault-prone call of a simulated process goes through here.

Installed once per worker (before any simulated process is forked); everything falls through to the
real implementation while no Runtime is active (that is: in the coordinator).

Points are taken
  * in a ``sys.addaudithook`` hook, so that opens, renames, removals, directory creation and listing
    are seen whatever API the code under test uses to reach them, and
  * in wrappers for what audit events do not cover: file writes/reads/flushes, fsync, stat, sqlite
    statements, lock calls, sleeping, clocks, entropy, directory order, temporary names.
"""

from __future__ import annotations

import builtins
import datetime as _dt
import errno
import fcntl
import gc
import hashlib
import io
import os
import pickle
import random
import shutil
import socket
import sqlite3
import struct
import sys
import tempfile
import time

RT = None  # the active Runtime (only ever set inside a forked simulated process)

_real = {
    "open": io.open,
    "os_write": os.write,
    "os_fsync": os.fsync,
    "os_stat": os.stat,
    "os_lstat": os.lstat,
    "os_listdir": os.listdir,
    "os_scandir": os.scandir,
    "os_urandom": os.urandom,
    "os_getpid": os.getpid,
    "connect": sqlite3.connect,
    "flock": fcntl.flock,
    "lockf": fcntl.lockf,
    "time": time.time,
    "time_ns": time.time_ns,
    "monotonic": time.monotonic,
    "monotonic_ns": time.monotonic_ns,
    "perf_counter": time.perf_counter,
    "perf_counter_ns": time.perf_counter_ns,
    "sleep": time.sleep,
    "localtime": time.localtime,
    "gmtime": time.gmtime,
    "strftime": time.strftime,
    "datetime": _dt.datetime,
}

MUT = {
    "openw", "rename", "remove", "mkdir", "rmdir", "link", "symlink", "truncate",
    "write", "fsync", "sql.exec", "sql.commit", "sql.connect", "chmod", "lock", "ext",
}

# which errors a point of each kind can be made to return
ERRNOS = {
    "openw": [errno.ENOSPC, errno.EIO, errno.EMFILE, errno.EACCES],
    "openr": [errno.EIO, errno.EMFILE],
    "read": [errno.EIO],
    "write": [errno.ENOSPC, errno.EIO],
    "fsync": [errno.EIO, errno.ENOSPC],
    "rename": [errno.ENOSPC, errno.EIO],
    "mkdir": [errno.ENOSPC, errno.EIO],
    "remove": [errno.EIO, errno.EBUSY],
    "rmdir": [errno.EIO, errno.EBUSY],
    "list": [errno.EIO],
}


class SimHang(BaseException):
    """The point budget of a run is exhausted (livelock); unwinds the simulated process."""


class Contained(PermissionError):
    """A write, rename or removal outside the scratch area was refused (and recorded)."""


def _nosize(path, size):
    # sizes of compressed files and of a few bytes (process ids) are not part of the event log
    return size is None or size <= 16 or path.endswith(".gz")


def send_msg(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<I", len(b)) + b)


def _recv_n(sock, n):
    out = b""
    while len(out) < n:
        c = sock.recv(n - len(out))
        if not c:
            return None
        out += c
    return out


def recv_msg(sock):
    h = _recv_n(sock, 4)
    if h is None:
        return None
    b = _recv_n(sock, struct.unpack("<I", h)[0])
    if b is None:
        return None
    return pickle.loads(b)


class Runtime:
    """State of one simulated process (lives in the forked child)."""

    def __init__(self, sock, root, allowed, pid, entropy, skew):
        self.sock = sock
        self.root = root  # data root, points are taken below it
        self.allowed = allowed  # writable area (contains root)
        self.vpid = pid
        self.entropy = entropy
        self.skew = skew
        self.ctr = 0
        self.budget = 0
        self.count_mut = False
        self.until = None
        self.left = 0
        self.now = 0.0
        self.events = []
        self.busy = False
        self.sticky = None
        self.escapes = []
        self.outside_reads = []
        self.fired = []
        self.steps = 0
        self.track_reads = False
        self.tmpn = 0
        self.step_limit = 60000
        self.marks = {}

    # ------------------------------------------------------------------ protocol
    def contact(self, msg):
        self.busy = True
        try:
            ev, self.events = self.events, []
            send_msg(self.sock, (msg, ev, self.now, self.fired))
            self.fired = []
            g = recv_msg(self.sock)
        finally:
            self.busy = False
        if g is None:
            os._exit(99)
        return g

    def take_grant(self, g):
        self.now = max(self.now, g["now"])
        self.skew = g.get("skew", self.skew)
        self.left = g["budget"]
        self.count_mut = g["mut"]
        self.until = g.get("until")

    def start(self):
        self.take_grant(recv_msg(self.sock))

    def crash(self):
        # killed: nothing buffered is written, the kernel drops fds and locks
        self.busy = True
        os._exit(137)

    # ------------------------------------------------------------------ points
    def point(self, kind, path="", size=None, err=None):
        """One step of the simulated process, just before it takes effect.

        Returns None normally, or ("torn", fraction) for a write that must be cut short.
        """
        if self.busy:
            return None
        self.steps += 1
        self.now += 0.00002
        if len(self.events) < 4000:
            self.events.append((kind, path) if _nosize(path, size) else (kind, path, size))
        if self.steps > self.step_limit:
            raise SimHang(f"more than {self.step_limit} steps")
        if self.sticky is not None and kind in ("openw", "write", "mkdir", "fsync", "rename"):
            if kind != "rename":
                self.fired.append("enospc_sticky")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if self.left < 0:
            return None
        if self.until is not None:
            if type(self.until) is str:
                if self.until[-1:] == "*":
                    if kind not in MUT or not path.startswith(self.until[:-1]):
                        return None
                elif path != self.until:
                    return None
            elif kind not in self.until:
                return None
        elif self.count_mut and kind not in MUT:
            return None
        self.left -= 1
        if self.left > 0:
            return None
        g = self.contact(("point", kind, path, size))
        self.take_grant(g)
        act = g.get("act")
        if not act:
            return None
        return self.do(act, kind, path, size, err)

    def do(self, act, kind, path, size, err):
        a = act[0]
        if a == "crash":
            self.crash()
        if a == "torn":
            if kind == "write":
                return ("torn", act[1])
            self.crash()
        if a == "short":  # disk fills up in the middle of this write
            if kind == "write":
                self.sticky = "enospc"
                self.fired.append("short_write_enospc")
                return ("short", act[1])
            a, act = "errno", ("errno", 0, True)
        if a == "interrupt":
            self.fired.append("interrupt")
            raise KeyboardInterrupt("simulated")
        if a == "memory":
            self.fired.append("memory_error")
            raise MemoryError("simulated")
        if a == "errno":
            if kind.startswith("sql."):
                self.fired.append("sqlite_error")
                raise sqlite3.OperationalError(
                    ["disk I/O error", "database or disk is full"][act[1] % 2]
                )
            es = err or ERRNOS.get(kind)
            if not es:
                return None
            e = es[act[1] % len(es)]
            if e == errno.ENOSPC and len(act) > 2 and act[2]:
                self.sticky = "enospc"
            self.fired.append("io_" + errno.errorcode[e])
            raise OSError(e, os.strerror(e), path)
        return None

    def heal(self):
        self.sticky = None

    def block(self, why):
        g = self.contact(("block", why))
        self.take_grant(g)
        if g.get("act"):
            self.do(g["act"], "block", why, None, None)

    def sleep(self, dt):
        g = self.contact(("sleep", float(dt)))
        self.take_grant(g)
        if g.get("act"):
            self.do(g["act"], "sleep", "", None, None)

    # ------------------------------------------------------------------ paths
    def rel(self, p):
        """Path relative to the data root, or None when it is elsewhere."""
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        r = self.root
        if p == r:
            return "."
        if p.startswith(r + "/"):
            return _stable(p[len(r) + 1 :])
        return None

    def absn(self, p, dir_fd=-1):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            base = os.getcwd()
            if isinstance(dir_fd, int) and dir_fd >= 0:
                base = os.readlink(f"/proc/self/fd/{dir_fd}")
            p = os.path.join(base, p)
        # resolve links of the parent, not of the last component
        p = os.path.normpath(p)
        d, b = os.path.split(p)
        return os.path.join(os.path.realpath(d), b)

    def guard(self, what, p, dir_fd=-1):
        """Refuse (and record) any effect outside the scratch area."""
        a = self.absn(p, dir_fd)
        if a == self.allowed or a.startswith(self.allowed + "/") or a in ("/dev/null", "/dev/tty"):
            return a
        if a.startswith("/proc/self/") or a.startswith("/dev/shm/__KMP") or a.startswith("/dev/fd/"):
            return a
        self.escapes.append((what, a))
        raise Contained(errno.EACCES, f"simulator refused {what} outside the scratch area", a)

    # ------------------------------------------------------------------ entropy
    def urandom(self, n):
        self.ctr += 1
        out = b""
        i = 0
        while len(out) < n:
            out += hashlib.sha256(f"{self.entropy}:{self.ctr}:{i}".encode()).digest()
            i += 1
        return out[:n]

    def clock(self):
        self.now += 0.000001
        return self.now


# names with a hash of the absolute scratch path in them: a scenario gives (pattern, replacement), so that the
# recorded trace does not depend on where the scratch directory is
NAME_SUB = None


def _stable(r):
    return r if NAME_SUB is None else NAME_SUB[0].sub(NAME_SUB[1], r)


# ---------------------------------------------------------------------- audit hook
def _rel_abs(rt, a):
    r = rt.root
    if a == r:
        return "."
    if a.startswith(r + "/"):
        return _stable(a[len(r) + 1 :])
    return None


_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _on_open(rt, args):
    path, mode, flags = args
    if path is None or isinstance(path, int):
        return
    wr = bool(flags & _WR) if isinstance(flags, int) else False
    if isinstance(mode, str) and any(c in mode for c in "wax+"):
        wr = True
    if wr:
        a = rt.guard("open for writing", path)
        r = _rel_abs(rt, a)
        if r is None:
            r = rt.rel(path)
        if r is not None:
            rt.point("openw", r)
        return
    r = rt.rel(path)
    if r is not None:
        rt.point("openr", r)
    if rt.track_reads:
        try:
            q = os.fspath(path)
            q = os.fsdecode(q) if isinstance(q, bytes) else q
            if q.startswith("/"):
                rt.outside_reads.append(os.path.realpath(q))
        except Exception:
            pass


def _mk(kind, npaths=1, fdpos=None):
    def f(rt, args):
        pts = []
        for i in range(npaths):
            dfd = -1
            if fdpos is not None and len(args) > fdpos + i:
                dfd = args[fdpos + i]
            p = args[i]
            if isinstance(p, int) or p is None:
                continue
            a = rt.guard(kind, p, dfd)
            r = _rel_abs(rt, a)
            if r is not None:
                pts.append(r)
        if pts:
            rt.point(kind, " -> ".join(pts))

    return f


def _on_rmtree(rt, args):
    rt.guard("remove tree", args[0], args[1] if len(args) > 1 and args[1] is not None else -1)


def _on_list(rt, args):
    p = args[0]
    if isinstance(p, int):
        try:
            p = os.readlink(f"/proc/self/fd/{p}")
        except OSError:
            return
    r = rt.rel(p if p is not None else ".")
    if r is not None:
        rt.point("list", r)


_HOOKS = {
    "open": _on_open,
    "os.rename": _mk("rename", 2, 2),
    "os.remove": _mk("remove", 1, 1),
    "os.mkdir": _mk("mkdir", 1, 2),
    "os.rmdir": _mk("rmdir", 1, 1),
    "os.link": _mk("link", 2, 2),
    "os.symlink": _mk("symlink", 2, None),
    "os.truncate": _mk("truncate", 1, None),
    "os.chmod": _mk("chmod", 1, 2),
    "shutil.rmtree": _on_rmtree,
    "os.listdir": _on_list,
    "os.scandir": _on_list,
}


def _on_symlink(rt, args):
    a = rt.guard("symlink", args[1])
    r = _rel_abs(rt, a)
    if r is not None:
        rt.point("symlink", r)


_HOOKS["os.symlink"] = _on_symlink


def _audit(event, args):
    rt = RT
    if rt is None or rt.busy:
        return
    h = _HOOKS.get(event)
    if h is None:
        return
    h(rt, args)


# ---------------------------------------------------------------------- files
class SimFileIO(io.FileIO):
    def __init__(self, file, mode, closefd, opener, rel):
        super().__init__(file, mode, closefd, opener)
        self._rel = rel

    def write(self, b):
        rt = RT
        if rt is None or rt.busy:
            return super().write(b)
        n = memoryview(b).nbytes
        r = rt.point("write", self._rel, n)
        if r is not None:
            k = int(n * r[1])
            if k:
                super().write(memoryview(b).cast("B")[:k])
            if r[0] == "torn":
                rt.crash()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._rel)
        return super().write(b)

    def readinto(self, b):
        if RT is not None:
            RT.point("read", self._rel)
        return super().readinto(b)

    def read(self, n=-1):
        if RT is not None:
            RT.point("read", self._rel)
        return super().read(n)

    def readall(self):
        if RT is not None:
            RT.point("read", self._rel)
        return super().readall()

    def truncate(self, size=None):
        if RT is not None:
            RT.point("truncate", self._rel)
        return super().truncate(size)


def _fd_rel(rt, fd):
    try:
        return rt.rel(os.readlink(f"/proc/self/fd/{fd}"))
    except OSError:
        return None


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    rt = RT
    if rt is None or rt.busy:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    rel = _fd_rel(rt, file) if isinstance(file, int) else rt.rel(file)
    if rel is None or not isinstance(mode, str):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    if not raw_mode:
        raw_mode = "r"
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(file, raw_mode, closefd, opener, rel)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        bs = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, bs)
        elif any(c in raw_mode for c in "wax"):
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, bs)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def sim_os_write(fd, data):
    rt = RT
    if rt is None or rt.busy:
        return _real["os_write"](fd, data)
    rel = _fd_rel(rt, fd)
    if rel is None:
        return _real["os_write"](fd, data)
    r = rt.point("write", rel, len(data))
    if r is not None:
        k = int(len(data) * r[1])
        if k:
            _real["os_write"](fd, bytes(data)[:k])
        if r[0] == "torn":
            rt.crash()
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    return _real["os_write"](fd, data)


def sim_fsync(fd):
    rt = RT
    if rt is not None and not rt.busy:
        f = fd if isinstance(fd, int) else fd.fileno()
        rel = _fd_rel(rt, f)
        if rel is not None:
            rt.point("fsync", rel)
            return None  # tmpfs: nothing to wait for
    return _real["os_fsync"](fd)


def sim_stat(path, *a, **k):
    rt = RT
    if rt is not None and not rt.busy and not isinstance(path, int):
        r = rt.rel(path)
        if r is not None:
            rt.point("stat", r)
    return _real["os_stat"](path, *a, **k)


def _okey(rt, name):
    n = name if isinstance(name, str) else os.fsdecode(name)
    return hashlib.sha256(f"{rt.entropy}:{n}".encode()).digest()


def sim_listdir(path="."):
    out = _real["os_listdir"](path)
    rt = RT
    if rt is not None and not rt.busy:
        out.sort(key=lambda n: _okey(rt, n))
    return out


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path="."):
    rt = RT
    if rt is None or rt.busy:
        return _real["os_scandir"](path)
    with _real["os_scandir"](path) as it:
        es = list(it)
    es.sort(key=lambda e: _okey(rt, e.name))
    return _Scan(es)


# ---------------------------------------------------------------------- sqlite
def _sql(rt, kind, rel, timeout, fn):
    rt.point(kind, rel)
    t0 = rt.now
    while True:
        try:
            return fn()
        except sqlite3.OperationalError as e:
            if "locked" not in str(e) and "busy" not in str(e):
                raise
            if rt.now - t0 >= timeout:
                raise
            rt.block("sqlite")


class SimCursor(sqlite3.Cursor):
    def _go(self, fn):
        rt = RT
        c = self.connection
        if rt is None or rt.busy or not isinstance(c, SimConnection) or c._rel is None:
            return fn()
        return _sql(rt, "sql.exec", c._rel, c._timeout, fn)

    def execute(self, *a):
        return self._go(lambda: super(SimCursor, self).execute(*a))

    def executemany(self, *a):
        return self._go(lambda: super(SimCursor, self).executemany(*a))

    def executescript(self, *a):
        return self._go(lambda: super(SimCursor, self).executescript(*a))


class SimConnection(sqlite3.Connection):
    _rel = None
    _timeout = 5.0

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def execute(self, *a):
        c = self.cursor()
        c.execute(*a)
        return c

    def executemany(self, *a):
        c = self.cursor()
        c.executemany(*a)
        return c

    def executescript(self, *a):
        c = self.cursor()
        c.executescript(*a)
        return c

    def commit(self):
        rt = RT
        if rt is None or rt.busy or self._rel is None:
            return super().commit()
        return _sql(rt, "sql.commit", self._rel, self._timeout, super().commit)

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        else:
            self.rollback()
        return False


def sim_connect(database, timeout=5.0, *a, **k):
    rt = RT
    if rt is None or rt.busy:
        return _real["connect"](database, timeout, *a, **k)
    if isinstance(database, (str, bytes, os.PathLike)) and str(database) != ":memory:":
        p = os.fspath(database)
        if isinstance(p, str) and not p.startswith("file:"):
            rt.guard("open database", p)
            rel = rt.rel(p)
            if rel is not None:
                rt.point("sql.connect", rel)
                if not a and "factory" not in k:
                    k["factory"] = SimConnection
                con = _real["connect"](database, 0, *a, **k)
                if isinstance(con, SimConnection):
                    con._rel = rel
                    con._timeout = timeout
                return con
    return _real["connect"](database, timeout, *a, **k)


# ---------------------------------------------------------------------- locks
def _lockwrap(name):
    real = _real[name]

    def f(fd, op, *a):
        rt = RT
        if rt is None or rt.busy:
            return real(fd, op, *a)
        n = fd if isinstance(fd, int) else fd.fileno()
        rt.point("lock", _fd_rel(rt, n) or "")
        if op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
            return real(fd, op, *a)
        while True:
            try:
                return real(fd, op | fcntl.LOCK_NB, *a)
            except (BlockingIOError, PermissionError):
                rt.block("flock")

    return f


# ---------------------------------------------------------------------- clock
EPOCH = 1_700_000_000.0


def _wall(rt):
    return EPOCH + rt.clock() + rt.skew


def t_time():
    return _real["time"]() if RT is None else _wall(RT)


def t_time_ns():
    return _real["time_ns"]() if RT is None else int(_wall(RT) * 1e9)


def t_mono():
    return _real["monotonic"]() if RT is None else RT.clock() + 1000.0


def t_mono_ns():
    return _real["monotonic_ns"]() if RT is None else int((RT.clock() + 1000.0) * 1e9)


def t_perf():
    return _real["perf_counter"]() if RT is None else RT.clock() + 1000.0


def t_perf_ns():
    return _real["perf_counter_ns"]() if RT is None else int((RT.clock() + 1000.0) * 1e9)


def t_sleep(s):
    if RT is None or RT.busy:
        return _real["sleep"](s)
    return RT.sleep(s)


def t_localtime(s=None):
    return _real["localtime"](t_time() if s is None else s)


def t_gmtime(s=None):
    return _real["gmtime"](t_time() if s is None else s)


def t_strftime(fmt, t=None):
    return _real["strftime"](fmt, t_localtime() if t is None else t)


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if RT is None:
            return _real["datetime"].now(tz)
        return cls.fromtimestamp(_wall(RT), tz)

    @classmethod
    def utcnow(cls):
        if RT is None:
            return _real["datetime"].utcnow()
        return cls.fromtimestamp(_wall(RT), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def sim_urandom(n):
    return _real["os_urandom"](n) if RT is None else RT.urandom(n)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        rt = RT
        if rt is None:
            return hashlib.sha256(_real["os_urandom"](16)).hexdigest()[:8]
        rt.tmpn += 1
        # unique across processes and lives, like the real 8 random characters
        return f"p{rt.vpid}x{rt.tmpn}"


def patch_modules(prefixes=("modssc", "bench")):
    """`from time import perf_counter`-style references inside the code under test."""
    table = {
        _real["time"]: t_time,
        _real["monotonic"]: t_mono,
        _real["perf_counter"]: t_perf,
        _real["sleep"]: t_sleep,
        _real["datetime"]: SimDatetime,
        _real["localtime"]: t_localtime,
        _real["gmtime"]: t_gmtime,
        _real["strftime"]: t_strftime,
        _real["time_ns"]: t_time_ns,
        _real["os_urandom"]: sim_urandom,
        _real["open"]: sim_open,
        _real["connect"]: sim_connect,
        _real["flock"]: fcntl.flock,
        _real["os_stat"]: sim_stat,
        _real["os_listdir"]: sim_listdir,
        _real["os_scandir"]: sim_scandir,
        _real["os_write"]: sim_os_write,
        _real["os_fsync"]: sim_fsync,
    }
    byid = {id(k): v for k, v in table.items()}
    for name, m in list(sys.modules.items()):
        if m is None or not any(name == p or name.startswith(p + ".") for p in prefixes):
            continue
        for k, v in list(vars(m).items()):
            r = byid.get(id(v))
            if r is not None:
                setattr(m, k, r)


_installed = False


def install():
    import numpy.random  # noqa: F401  (imported lazily by numpy: not in every child)

    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.write = sim_os_write
    os.fsync = sim_fsync
    os.stat = sim_stat
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect
    fcntl.flock = _lockwrap("flock")
    fcntl.lockf = _lockwrap("lockf")
    time.time = t_time
    time.time_ns = t_time_ns
    time.monotonic = t_mono
    time.monotonic_ns = t_mono_ns
    time.perf_counter = t_perf
    time.perf_counter_ns = t_perf_ns
    time.sleep = t_sleep
    time.localtime = t_localtime
    time.gmtime = t_gmtime
    time.strftime = t_strftime
    tempfile._get_candidate_names = lambda: _Names()
    tempfile._name_sequence = _Names()
    shutil._USE_CP_SENDFILE = False
    try:
        import numpy.lib._format_impl as _nf

        _nf.isfileobj = lambda f: False  # np.save/np.load go through Python-level write/read
    except Exception:
        pass
    sys.addaudithook(_audit)
    patch_modules()
