"""The storage seam: every file operation of a simulated process passes here.

Files live in a scratch directory that the run owns; a path outside it can be
read but never written.  Each operation is a numbered point of the job in
progress, at which the scenario may say: fail with an errno, write or read less
than asked, hand over to another job, replace the configuration file, or kill
the process before, during or after the operation.  After the kill nothing the
process still does (destructors, finally clauses, buffered data) has any effect.
"""
import builtins
import errno
import io
import os
import random
import stat as stat_m
import tempfile
import time

from . import core

real = {}
CUR = None          # the Vfs of the run in progress

OPEN_W = ("ENOSPC", "EIO", "EMFILE", "EACCES", "EROFS", "EDQUOT")
COMPAT = {
    "open_r": ("EIO", "EMFILE", "EACCES"), "open_w": OPEN_W,
    "read": ("EIO", "short"), "write": ("ENOSPC", "EIO", "EDQUOT", "short"),
    "close_w": ("EIO", "ENOSPC", "EDQUOT"), "close_r": (), "stat": ("EIO", "EACCES"),
    "rename": ("EIO", "ENOSPC", "EACCES", "EXDEV"), "link": ("EIO", "ENOSPC", "EACCES", "EMLINK", "EPERM"),
    "unlink": ("EIO", "EACCES"), "fsync": ("EIO",), "listdir": ("EIO", "EACCES"),
    "mkdir": ("EIO", "ENOSPC", "EACCES"), "truncate": ("EIO",), "chmod": ("EACCES",),
}
MUTATES = {"open_w", "write", "close_w", "rename", "link", "unlink", "truncate", "mkdir"}


class Vfs:
    def __init__(self, root, sim, capacity=None, buf=8192):
        self.root = root
        self.sim = sim
        self.capacity = capacity
        self.buf = buf
        self.fds = {}               # fd -> (task, path, writable)
        self.last = self.snapshot()
        self.history = []           # (task, op, io, kind, {name: bytes or None})
        self.ops = {}               # (task, op) -> kinds, in order
        self.edit = None            # called for an "edit" action
        self.on_read = None         # called when a job opens a file for reading
        self.names = 0

    def path(self, p):
        """name relative to the scratch directory, or None if it lies outside"""
        p = os.fsdecode(p) if not isinstance(p, str) else p
        full = os.path.normpath(os.path.join(self.root, p))
        if full == self.root or full.startswith(self.root + "/"):
            return full[len(self.root) + 1:] or "."
        return None

    def snapshot(self):
        out = {}
        stack = [self.root]
        while stack:
            d = stack.pop()
            for e in real["listdir"](d):
                p = d + "/" + e
                st = real["lstat"](p)
                if stat_m.S_ISDIR(st.st_mode):
                    stack.append(p)
                elif stat_m.S_ISREG(st.st_mode):
                    fd = real["os_open"](p, os.O_RDONLY)
                    try:
                        data = b""
                        while True:
                            b = real["os_read"](fd, 1 << 20)
                            if not b:
                                break
                            data += b
                    finally:
                        real["os_close"](fd)
                    out[p[len(self.root) + 1:]] = data
                else:
                    out[p[len(self.root) + 1:]] = ("link", real["readlink"](p))
        return out

    def observe(self, t, kind):
        now = self.snapshot()
        diff = {n: now.get(n) for n in set(now) | set(self.last) if now.get(n) != self.last.get(n)}
        if diff:
            self.history.append((t.tid, t.op, t.io, kind, diff))
        self.last = now

    def kill(self, t, how):
        self.sim.count("kill")
        self.sim.note("fault", t.tid, t.op, t.io, how)
        t.fired.append("kill")
        t.dead = True
        raise core.Killed()

    def io(self, t, kind, name, do, data=None):
        """one file operation of task t; do() performs it (do(n) for partial transfers)"""
        if t.dead:
            raise core.Killed()
        sim = self.sim
        t.io += 1
        sim.total_points += 1
        self.ops.setdefault((t.tid, t.op), []).append(kind)
        acts = t.io_special.pop(t.io, ())
        number = t.io
        err = None
        short = None
        after = []
        for a in acts:
            w = a["act"]
            if w == "to":
                sim.switch(t, a["to"])
            elif w == "edit":
                sim.note("edit", t.tid, t.op, number)
                sim.count("config_replaced")
                self.edit(a["v"])
                self.last = self.snapshot()
            elif w == "kill":
                self.kill(t, "kill before " + kind)
            elif w in ("kill_after", "to_after"):
                after.append(a)
            elif w == "kill_mid":
                if kind == "write":
                    do(max(0, min(len(data), int(len(data) * a.get("f", 0.5)))))
                    self.observe(t, kind)
                self.kill(t, "kill during " + kind)
            elif w in COMPAT.get(kind, ()):
                if w == "short":
                    short = a.get("f", 0.5)
                else:
                    err = w
                    if a.get("sticky"):
                        t.sticky = w
        if err is None and t.sticky and t.sticky in COMPAT.get(kind, ()) and kind in ("write", "open_w", "close_w"):
            err = t.sticky
        if err is None and kind == "write" and self.capacity is not None and data is not None:
            if self.capacity <= 0:
                err = "ENOSPC"
            elif len(data) > self.capacity:
                short = self.capacity / len(data)
        sim.note("io", t.tid, t.op, number, kind, name, err or "", len(data) if data is not None else 0)
        if err is not None:
            sim.count(err)
            t.fired.append(err)
            if kind.startswith("close"):
                do()                # the descriptor is gone whatever close() says
            raise OSError(getattr(errno, err), os.strerror(getattr(errno, err)), name)
        if short is not None and data is not None and len(data) > 1:
            n = max(1, int(len(data) * short))
            if n < len(data):
                sim.count("short_" + kind)
                r = do(n)
            else:
                r = do()
        else:
            r = do()
        if kind == "write" and self.capacity is not None:
            self.capacity -= r
        if kind in MUTATES:
            self.observe(t, kind)
        for a in after:
            if a["act"] == "kill_after":
                self.kill(t, "kill after " + kind)
            sim.switch(t, a["to"])
        return r


class SimRaw(io.RawIOBase):
    def __init__(self, vfs, t, path, mode, fd=None, closefd=True):
        self._fd = None
        self.vfs, self.t, self.path, self.mode = vfs, t, path, mode
        self.name = path
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self.op = t.op
        if fd is not None:
            self._fd = fd
            return
        fl = os.O_CLOEXEC
        fl |= os.O_RDWR if self._r and self._w else (os.O_WRONLY if self._w else os.O_RDONLY)
        if "w" in mode:
            fl |= os.O_CREAT | os.O_TRUNC
        if "x" in mode:
            fl |= os.O_CREAT | os.O_EXCL
        if "a" in mode:
            fl |= os.O_CREAT | os.O_APPEND
        self._fd = vopen(vfs, t, path, fl, 0o666)
        if stat_m.S_ISDIR(real["fstat"](self._fd).st_mode):
            real["os_close"](self._fd)
            self._fd = None
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        if "a" in mode:
            os.lseek(self._fd, 0, os.SEEK_END)

    def _mine(self):
        """may this object still act?  Not if its process is gone."""
        cur = self.vfs.sim.task()
        return cur is self.t and self.t.op == self.op

    def _io(self, kind, do, data=None):
        if self._fd is None or self.closed:
            raise ValueError("I/O operation on closed file")
        if not self._mine():
            raise core.Killed()
        return self.vfs.io(self.t, kind, self.path, do, data)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self._fd is None:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        view = memoryview(b).cast("B")

        def do(n=None):
            d = real["os_read"](self._fd, len(view) if n is None else n)
            view[:len(d)] = d
            return len(d)
        return self._io("read", do, view)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(memoryview(b).cast("B")) if not isinstance(b, bytes) else b
        return self._io("write", lambda n=None: real["os_write"](self._fd, data if n is None else data[:n]), data)

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self._io("truncate", lambda: real["ftruncate"](self._fd, size))
        return size

    def close(self):
        if self.closed:
            return
        fd, self._fd = self._fd, None
        try:
            if fd is not None and self._closefd:
                self.vfs.fds.pop(fd, None)

                def do():
                    real["os_close"](fd)
                if self.t.dead or not self._mine():
                    do()
                else:
                    self.vfs.io(self.t, "close_w" if self._w else "close_r", self.path, do)
        except core.Killed:
            try:
                real["os_close"](fd)
            except OSError:
                pass
            raise
        finally:
            super().close()


def vopen(vfs, t, path, flags, mode):
    w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    name = vfs.path(path)
    full = os.path.join(vfs.root, name)

    def do():
        fd = real["os_open"](full, flags, mode)
        if not w and vfs.on_read:
            vfs.on_read(t, name)        # at the very moment the file is fixed
        return fd
    fd = vfs.io(t, "open_w" if w else "open_r", name, do)
    vfs.fds[fd] = (t, name, w)
    return fd


def _ctx():
    v = CUR
    if v is None:
        return None, None
    t = v.sim.task()
    return (v, t) if t is not None else (None, None)


def _outside(path):
    raise PermissionError(errno.EACCES, "outside the simulated directory", path)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    v, t = _ctx()
    if v is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw_mode = mode.replace("b", "").replace("t", "")
    if isinstance(file, int):
        if file not in v.fds:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(v, t, v.fds[file][1], raw_mode, fd=file, closefd=closefd)
    else:
        p = os.fspath(file)
        if v.path(p) is None:
            if any(c in mode for c in "wax+"):
                _outside(p)
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        real["open_check"](mode)
        if opener is not None:
            fl = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                  "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                  "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND}[raw_mode[0]]
            if "+" in raw_mode:
                fl = (fl & ~os.O_WRONLY) | os.O_RDWR
            raw = SimRaw(v, t, v.path(p), raw_mode, fd=opener(p, fl | os.O_CLOEXEC))
        else:
            raw = SimRaw(v, t, v.path(p), raw_mode)
            raw.name = p
    try:
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else v.buf
        if "+" in raw_mode:
            b = io.BufferedRandom(raw, size)
        elif raw_mode[0] == "r":
            b = io.BufferedReader(raw, size)
        else:
            b = io.BufferedWriter(raw, size)
        if "b" in mode:
            return b
        text = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _open_check(mode):
    if not isinstance(mode, str) or sum(c in "rwax" for c in mode) != 1 or set(mode) - set("rwaxbt+"):
        raise ValueError("invalid mode: %r" % (mode,))


def install():
    """put the seam in place (once per process; inert unless a run is in progress)"""
    if real:
        return
    real.update(open=builtins.open, os_open=os.open, os_close=os.close, os_read=os.read, os_write=os.write,
                listdir=os.listdir, scandir=os.scandir, stat=os.stat, lstat=os.lstat, fstat=os.fstat,
                rename=os.rename, replace=os.replace, link=os.link, unlink=os.unlink, remove=os.remove,
                symlink=os.symlink, readlink=os.readlink, fsync=os.fsync, fdatasync=os.fdatasync,
                ftruncate=os.ftruncate, truncate=os.truncate, mkdir=os.mkdir, rmdir=os.rmdir, access=os.access,
                chmod=os.chmod, utime=os.utime, getpid=os.getpid, urandom=os.urandom, open_check=_open_check,
                time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, sleep=time.sleep,
                time_ns=time.time_ns)
    builtins.open = sim_open
    io.open = sim_open
    try:
        import numpy.lib._datasource as ds
        ds._file_openers._load()
        for k, f in list(ds._file_openers._file_openers.items()):
            if f is real["open"]:
                ds._file_openers._file_openers[k] = sim_open
    except (ImportError, AttributeError):
        pass

    def one(kind, key, follow=None, mutates=True):
        fn = real[key]

        def wrapped(path, *a, **kw):
            v, t = _ctx()
            if v is None or isinstance(path, int) or kw.get("dir_fd") is not None:
                return fn(path, *a, **kw)
            name = v.path(os.fspath(path))
            if name is None:
                if mutates:
                    _outside(path)
                return fn(path, *a, **kw)
            return v.io(t, kind, name, lambda: fn(os.path.join(v.root, name), *a, **kw))
        wrapped.__name__ = key
        return wrapped

    def two(kind, key):
        fn = real[key]

        def wrapped(src, dst, *a, **kw):
            v, t = _ctx()
            if v is None:
                return fn(src, dst, *a, **kw)
            s, d = v.path(os.fspath(src)), v.path(os.fspath(dst))
            if s is None or d is None:
                _outside(dst)
            return v.io(t, kind, "%s -> %s" % (s, d),
                        lambda: fn(os.path.join(v.root, s), os.path.join(v.root, d), *a, **kw))
        wrapped.__name__ = key
        return wrapped

    def on_fd(kind, key):
        fn = real[key]

        def wrapped(fd, *a, **kw):
            v, t = _ctx()
            if v is None or not isinstance(fd, int) or fd not in v.fds:
                return fn(fd, *a, **kw)
            return v.io(t, kind, v.fds[fd][1], lambda: fn(fd, *a, **kw))
        wrapped.__name__ = key
        return wrapped

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        v, t = _ctx()
        if v is None or dir_fd is not None:
            return real["os_open"](path, flags, mode, dir_fd=dir_fd)
        if v.path(os.fspath(path)) is None:
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                _outside(path)
            return real["os_open"](path, flags, mode)
        return vopen(v, t, os.fspath(path), flags, mode)

    def os_close(fd):
        v, t = _ctx()
        if v is None or fd not in v.fds:
            return real["os_close"](fd)
        w = v.fds.pop(fd)
        if t.dead:
            real["os_close"](fd)
            raise core.Killed()
        return v.io(t, "close_w" if w[2] else "close_r", w[1], lambda: real["os_close"](fd))

    def os_write(fd, data):
        v, t = _ctx()
        if v is None or fd not in v.fds:
            return real["os_write"](fd, data)
        data = bytes(data)
        return v.io(t, "write", v.fds[fd][1],
                    lambda n=None: real["os_write"](fd, data if n is None else data[:n]), data)

    def os_read(fd, n):
        v, t = _ctx()
        if v is None or fd not in v.fds:
            return real["os_read"](fd, n)
        return v.io(t, "read", v.fds[fd][1], lambda k=None: real["os_read"](fd, n if k is None else k), range(n))

    os.open, os.close, os.write, os.read = os_open, os_close, os_write, os_read
    os.stat, os.lstat = one("stat", "stat", mutates=False), one("stat", "lstat", mutates=False)
    os.access = one("stat", "access", mutates=False)
    os.unlink = os.remove = one("unlink", "unlink")
    os.rmdir = one("unlink", "rmdir")
    os.mkdir = one("mkdir", "mkdir")
    os.truncate = one("truncate", "truncate")
    os.chmod = one("chmod", "chmod")
    os.utime = one("chmod", "utime")
    os.rename, os.replace = two("rename", "rename"), two("rename", "replace")
    os.link = two("link", "link")
    os.fsync, os.fdatasync = on_fd("fsync", "fsync"), on_fd("fsync", "fdatasync")
    os.ftruncate = on_fd("truncate", "ftruncate")

    def listdir(path="."):
        v, t = _ctx()
        if v is None or isinstance(path, int) or v.path(os.fspath(path)) is None:
            return real["listdir"](path)
        return v.io(t, "listdir", v.path(os.fspath(path)),
                    lambda: sorted(real["listdir"](os.path.join(v.root, v.path(os.fspath(path))))))
    os.listdir = listdir

    def getpid():
        v, t = _ctx()
        return real["getpid"]() if v is None else 1000 + 100 * t.tid + max(t.op, 0)
    os.getpid = getpid

    def urandom(n):
        v, t = _ctx()
        if v is None:
            return real["urandom"](n)
        v.names += 1
        return random.Random(v.names).randbytes(n)
    os.urandom = urandom

    def clock(key, scale=1.0, cast=float):
        def now():
            s = core.Sim.cur
            if s is None or s.task() is None:
                return real[key]()
            s.clock += 1
            return cast((1.6e9 + 1e-3 * (s.total_points + s.clock)) * scale)
        now.__name__ = key
        return now
    time.time, time.monotonic, time.perf_counter = clock("time"), clock("monotonic"), clock("perf_counter")
    time.time_ns = clock("time_ns", 1e9, int)

    def sleep(sec):
        s = core.Sim.cur
        t = s.task() if s is not None else None
        if t is None:
            return real["sleep"](sec)
        s.clock += int(1000 * max(sec, 0)) + 1
        s.total_points += 1
        if s.total_points > s.budget:
            s.violation("no_progress", task=t.tid, op=t.op)
            s.failure = core.StepBudget()
            raise core.StepBudget()
        s.switch(t, None)
    time.sleep = sleep

    import shutil
    shutil._USE_CP_SENDFILE = False     # copies go through read and write, where they can fail

    class Names:
        """temporary names from the run, not from the system's randomness"""

        def __iter__(self):
            return self

        def __next__(self):
            v, t = _ctx()
            if v is None:
                return "%08x" % random.getrandbits(32)
            v.names += 1
            return "tmp%05d" % v.names
    tempfile._RandomNameSequence = Names
    tempfile._get_candidate_names = lambda: Names()
