"""The file-system seam: real files below a scratch directory, every operation of the code under test intercepted.

Each intercepted operation is a scheduling point, may be made to fail (errno), to be short, or to be the last thing the
process does (simulated death: nothing below the scratch directory changes afterwards), and is reported to an observer.
Modified times come from the simulated clock.  Paths outside the scratch directory are passed through.
"""
import builtins
import errno
import io
import os
import sys

from sim import kernel

_real = {}
EINTR_RETRY = True


class F:
    fs = None


class FS:
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.dead = False
        self.opno = 0
        self.ops = []              # (kind, relative path)
        self.plan = None           # callable(opno, kind, rel) -> action | None
        self.observer = None       # callable(kind, rel, phase)
        self.fds = {}              # fd -> rel
        self.last_stamp = 0
        self.strict = True         # modified times strictly increase with every write
        self.short = None          # callable(kind, n) -> n'
        self.fired = None
        self.deaths = 0
        self.silent = 0
        self.points = True

    # -- paths
    def rel(self, path):
        """Path relative to the scratch directory, or None when it is not ours."""
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p.startswith(self.root):
            return p[len(self.root):]
        return None

    # -- time
    def now_us(self):
        sim = kernel.S.sim
        return sim.now_us if sim is not None else self.outside_now

    outside_now = kernel.EPOCH_US

    def stamp(self, target):
        """Set the modified time of a file (fd or path) that was just changed."""
        us = self.now_us()
        if self.strict:
            us = max(us, self.last_stamp + 1)
        self.last_stamp = us
        try:
            _real["utime"](target, ns=(us * 1000, us * 1000))
        except OSError:
            pass

    # -- operations
    def begin(self, kind, rel):
        """Returns the action planned for this operation."""
        if self.silent:
            return None
        sim = kernel.S.sim
        if self.dead or sim is not None and sim.killing:
            raise kernel.SimKilled()
        no = self.opno
        self.opno += 1
        self.ops.append((kind, rel))
        if sim is not None:
            sim.ev("fs", kind, rel)
            if self.points:
                sim.point(False)
        if self.observer is not None:
            self.observer(kind, rel, "before")
        act = self.plan(no, kind, rel) if self.plan is not None else None
        if act is None:
            return None
        self.fired = (no, kind, rel, act)
        if sim is not None:
            sim.ev("fs-fault", kind, rel, repr(act))
        if act[0] == "die-before":
            self.die()
        if act[0] == "err":
            raise OSError(act[1], os.strerror(act[1]), rel)
        if act[0] == "raise":
            raise act[1]
        return act

    def end(self, kind, rel, act):
        if self.silent:
            return
        if self.observer is not None:
            self.observer(kind, rel, "after")
        if act is not None and act[0] == "die-after":
            self.die()
        if act is not None and act[0] == "err-after":
            raise OSError(act[1], os.strerror(act[1]), rel)

    def die(self):
        self.dead = True
        self.deaths += 1
        sim = kernel.S.sim
        if sim is not None:
            sim.ev("process-death")
            sim.fail("crash", "simulated process death")
        raise kernel.SimKilled()

    def path_op(self, kind, rel, fn, stamped=None):
        act = self.begin(kind, rel)
        r = fn()
        if stamped is not None:
            self.stamp(stamped)
        self.end(kind, rel, act)
        return r

    # -- inspection by the harness (never intercepted)
    def signature(self, path):
        """Changes whenever the file's content may have changed: every simulated write gets its own modified time."""
        try:
            st = os.stat(path)
        except OSError:
            return None
        return st.st_ino, st.st_size, st.st_mtime_ns, st.st_ctime_ns

    def bytes(self, path):
        try:
            fd = _real["open"](path, os.O_RDONLY)
        except OSError:
            return None
        try:
            out = []
            while True:
                b = _real["read"](fd, 1 << 22)
                if not b:
                    return b"".join(out)
                out.append(b)
        finally:
            _real["close"](fd)

    def mtime_us(self, path):
        try:
            return os.stat(path).st_mtime_ns // 1000
        except OSError:
            return None

    def put(self, path, data, us=None):
        fd = _real["open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            while data:
                data = data[_real["write"](fd, data):]
        finally:
            _real["close"](fd)
        if us is not None:
            _real["utime"](path, ns=(us * 1000, us * 1000))
        else:
            self.stamp(path)

    def remove(self, path):
        try:
            _real["remove"](path)
        except OSError:
            pass

    def listing(self, sub=""):
        out = {}
        top = os.path.join(self.root, sub)
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                out[os.path.relpath(p, top)] = self.bytes(p)
        return out


class SimRaw(io.FileIO):
    """A raw file whose operations go through the seam."""

    def __init__(self, path, mode, closefd=True, opener=None):
        fs = F.fs
        self._fs = fs
        self._rel = fs.rel(path)
        creating = any(c in mode for c in "wxa")
        act = fs.begin("open-" + mode, self._rel)
        existed = os.path.exists(path) if not isinstance(path, int) else True
        super().__init__(path, mode, closefd, opener)
        fs.fds[self.fileno()] = self._rel
        if "w" in mode or creating and not existed:
            fs.stamp(self.fileno())
        try:
            fs.end("open", self._rel, act)
        except BaseException:
            super().close()
            raise

    def write(self, b):
        fs = self._fs
        n = memoryview(b).nbytes
        if fs.dead or kernel.S.sim is not None and kernel.S.sim.killing:
            return n
        act = fs.begin("write", self._rel)
        if act is not None and act[0] == "short":
            b = memoryview(b).cast("B")[:max(1, min(n, act[1]))]
        elif act is not None and act[0] == "torn":
            # part of the data reaches the disk, then the device fails
            super().write(memoryview(b).cast("B")[:min(n, act[1])])
            fs.stamp(self.fileno())
            fs.end("write", self._rel, None)
            raise OSError(act[2], os.strerror(act[2]), self._rel)
        elif fs.short is not None:
            k = fs.short("write", n)
            if k < n:
                b = memoryview(b).cast("B")[:k]
        r = super().write(b)
        fs.stamp(self.fileno())
        fs.end("write", self._rel, act)
        return r

    def readinto(self, b):
        fs = self._fs
        if fs.dead:
            raise kernel.SimKilled()
        act = fs.begin("read", self._rel)
        mv = memoryview(b).cast("B")
        if fs.short is not None and len(mv) > 1:
            mv = mv[:max(1, fs.short("read", len(mv)))]
        r = super().readinto(mv)
        fs.end("read", self._rel, act)
        return r

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = bytearray()
        while True:
            b = bytearray(8192)
            n = self.readinto(b)
            if not n:
                return bytes(out)
            out += b[:n]

    def truncate(self, size=None):
        fs = self._fs
        act = fs.begin("truncate", self._rel)
        r = super().truncate(size)
        fs.stamp(self.fileno())
        fs.end("truncate", self._rel, act)
        return r

    def close(self):
        if self.closed:
            return
        fs = self._fs
        act = None
        fault = None
        if not fs.dead and not (kernel.S.sim is not None and kernel.S.sim.killing):
            try:
                act = fs.begin("close", self._rel)
            except kernel.SimKilled:
                self._really_close()
                raise
            except BaseException as e:
                fault = e          # close(2) that reports an error has closed the descriptor all the same
        self._really_close()
        if fault is not None:
            raise fault
        if not fs.dead:
            fs.end("close", self._rel, act)

    def _really_close(self):
        try:
            self._fs.fds.pop(self.fileno(), None)
        except ValueError:
            pass
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = F.fs
    if fs is None or fs.silent or isinstance(file, int) and file not in fs.fds or fs.rel(file) is None:
        return _real["builtin_open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError(f"invalid mode: {mode!r}")
    text = "b" not in modes
    if "t" in modes and not text:
        raise ValueError("can't have text and binary mode at once")
    if len(modes & set("rwxa")) != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if not text and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take encoding, errors or newline arguments")
    rawmode = "".join(c for c in "rwxa" if c in modes) + ("+" if "+" in modes else "")
    raw = SimRaw(file, rawmode, closefd, opener)
    try:
        line_buffering = False
        if buffering == 1 and text:
            buffering = -1
            line_buffering = True
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else BUFFER_SIZE
        if "+" in modes:
            buf = io.BufferedRandom(raw, size)
        elif modes & set("wxa"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, io.text_encoding(encoding) if encoding is None else encoding, errors, newline,
                             line_buffering)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


BUFFER_SIZE = 8192


def _wrap_path(name, kind, n_paths=1, stamps=None):
    orig = getattr(os, name, None)
    if orig is None:
        return
    _real[name] = orig

    def wrapper(path, *a, **k):
        fs = F.fs
        if fs is None or fs.silent:
            return orig(path, *a, **k)
        rel = fs.rel(path)
        if rel is None and n_paths == 2 and a:
            rel = fs.rel(a[0])
        if rel is None:
            return orig(path, *a, **k)
        label = rel
        if n_paths == 2:
            dst = a[0] if a else k.get("dst")
            label = f"{rel} -> {fs.rel(dst)}"
        return fs.path_op(kind, label, lambda: orig(path, *a, **k), path if stamps else None)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _wrap_fd(name, kind, fd_arg=0, stamps=False):
    orig = getattr(os, name, None)
    if orig is None:
        return
    _real[name] = orig

    def wrapper(*a, **k):
        fs = F.fs
        if fs is None or fs.silent or len(a) <= fd_arg or a[fd_arg] not in fs.fds:
            return orig(*a, **k)
        fd = a[fd_arg]
        return fs.path_op(kind, fs.fds[fd], lambda: orig(*a, **k), fd if stamps else None)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


_done = False


def install():
    """Patch the entry points. Call before importing uberjob."""
    global _done
    if _done:
        return
    _done = True
    _real["builtin_open"] = builtins.open
    _real["utime"] = os.utime
    builtins.open = sim_open
    io.open = sim_open
    for name, kind, n in (("replace", "replace", 2), ("rename", "rename", 2), ("link", "link", 2),
                          ("symlink", "symlink", 2), ("remove", "remove", 1), ("unlink", "remove", 1),
                          ("mkdir", "mkdir", 1), ("rmdir", "rmdir", 1), ("chmod", "chmod", 1), ("utime", "utime", 1)):
        _wrap_path(name, kind, n)
    _wrap_path("truncate", "truncate", 1, stamps=True)
    _wrap_fd("write", "write", 0, True)
    _wrap_fd("pwrite", "write", 0, True)
    _wrap_fd("writev", "write", 0, True)
    _wrap_fd("read", "read", 0)
    _wrap_fd("fsync", "fsync", 0)
    _wrap_fd("fdatasync", "fsync", 0)
    _wrap_fd("ftruncate", "truncate", 0, True)
    _wrap_fd("sendfile", "write", 0, True)
    _wrap_fd("copy_file_range", "write", 1, True)
    real_open = os.open
    real_close = os.close
    _real["open"] = real_open
    _real["close"] = real_close

    def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = F.fs
        rel = None if fs is None or fs.silent or dir_fd is not None else fs.rel(path)
        if rel is None:
            return real_open(path, flags, mode, dir_fd=dir_fd)
        kind = "open-w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open-r"
        act = fs.begin(kind, rel)
        fd = real_open(path, flags, mode)
        fs.fds[fd] = rel
        if flags & os.O_TRUNC:
            fs.stamp(fd)
        fs.end(kind, rel, act)
        return fd

    def sim_os_close(fd):
        fs = F.fs
        if fs is None or fs.silent or fd not in fs.fds:
            return real_close(fd)
        if fs.dead:
            fs.fds.pop(fd, None)
            return real_close(fd)
        fault = None
        act = None
        try:
            act = fs.begin("close", fs.fds[fd])
        except BaseException as e:
            fault = e
        rel = fs.fds.pop(fd, None)
        real_close(fd)
        if fault is not None:
            raise fault
        fs.end("close", rel, act)
    os.open = sim_os_open
    os.close = sim_os_close


ERRS_OPEN = [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EIO, errno.EROFS]
ERRS_WRITE = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
ERRS_CLOSE = [errno.EIO, errno.ENOSPC, errno.EDQUOT]
ERRS_RENAME = [errno.EACCES, errno.EIO, errno.ENOSPC, errno.EXDEV, errno.EBUSY]


def errnos_for(kind):
    if kind.startswith("open"):
        return ERRS_OPEN
    if kind in ("replace", "rename", "link"):
        return ERRS_RENAME
    if kind == "close":
        return ERRS_CLOSE
    return ERRS_WRITE
