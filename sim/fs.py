"""A file system under the simulator's control.

Files live in one scratch directory; everything the code under test does to
them through io, os, shutil or tempfile passes through here.  Every operation
is a scheduling point, may fail as the scenario says, and may be the last one
of its process: after a crash only what reached the files is left.  Data sits
in the writer's own buffers until it is flushed, in small pieces.

``history`` holds every content each file ever had, as another process would
have seen it.
"""

import builtins
import errno
import io
import os
import shutil
import stat
import tempfile

from .core import SimUnsupported

ERRNO = {
    "ENOSPC": errno.ENOSPC,
    "EIO": errno.EIO,
    "EACCES": errno.EACCES,
    "EROFS": errno.EROFS,
    "EMFILE": errno.EMFILE,
    "EINTR": errno.EINTR,
}

R = {
    n: getattr(os, n)
    for n in (
        "open", "close", "write", "read", "replace", "rename", "unlink", "remove", "mkdir",
        "rmdir", "link", "symlink", "truncate", "ftruncate", "fsync", "fdatasync", "chmod",
        "fchmod", "dup", "dup2", "lseek", "sendfile", "utime", "makedirs", "copy_file_range",
    )
    if hasattr(os, n)
}
R_IO_OPEN = io.open
MUTATING = {"open-w", "write", "replace", "unlink", "mkdir", "rmdir", "link", "truncate", "create"}


class Crash(BaseException):
    """The process dies here."""


class Interrupted(KeyboardInterrupt):
    """The user interrupts the process during a file operation."""

    sim_expected = True


class _Names:
    """Random names in temporary files: never the same twice, always the same again."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f"sim{self.n:06d}"


class SimFS:
    def __init__(self, run, sched=None, faults=(), chunk=64, extra_roots=(), tmp=True):
        self.run, self.sched = run, sched
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simfs-"))
        self.tmp = os.path.join(self.root, "tmp") if tmp else None
        if tmp:
            os.mkdir(self.tmp)
        self.roots = [self.root] + [os.path.realpath(r) for r in extra_roots]
        self.faults = [list(f) for f in faults]
        self.chunk = max(1, int(chunk))
        self.ops = 0
        self.fds = {}
        self.history = {}
        self.seen = {}
        self.crashed = False
        self.on_crash = None
        self.bypass = 0
        self.installed = False
        self.watch = None  # fn(op, path): after every mutating operation
        self.on_fault = None  # fn(kind, op, path): before a fault takes effect
        self.match = None  # fn(what, path) -> bool: which operations count for faults

    # -- plumbing

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return False
        return any(p == r or p.startswith(r + os.sep) for r in self.roots)

    def show(self, path):
        if isinstance(path, int):
            path = self.fds.get(path, str(path))
        p = os.path.abspath(os.fsdecode(os.fspath(path)))
        for i, r in enumerate(self.roots):
            if p == r or p.startswith(r + os.sep):
                return f"<{i}>" + p[len(r):]
        return p

    def alive(self):
        if self.dead():
            raise Crash("the process is dead")

    def dead(self):
        if self.sched is not None and self.sched.active():
            return self.sched.cur.proc.dead
        return self.crashed

    def op(self, what, path):
        """Before an operation takes effect.  Returns the fault that shapes it, if any."""
        if self.bypass:
            return None
        self.alive()
        if self.sched is not None:
            self.sched.point("fs:" + what)
            self.alive()
        if self.match is not None and not self.match(what, path):
            return None
        self.ops += 1
        for f in self.faults:
            n, kind = f[0], f[1]
            if n == self.ops:
                if what != "write" and (kind in ("short", "EINTR") or kind == "torn" and "wait" in f):
                    f[0] += 1  # the next write, whenever it comes
                    continue
                if self.on_fault is not None:
                    self.on_fault(kind, what, path)
                if kind == "crash":
                    self.crash(what, path)
                if kind == "short":
                    self.run.fault("short write")
                    return "short"
                if kind == "torn":
                    if what == "write":
                        self.run.fault("torn write and crash")
                        return "torn"
                    self.crash(what, path)
                if kind == "interrupt":
                    self.run.fault("interrupt during a file operation")
                    self.run.log("fs", what, self.show(path), "-> interrupt")
                    raise Interrupted(what)
                self.run.fault(f"file system: {kind}")
                self.run.log("fs", what, self.show(path), "->", kind)
                raise OSError(ERRNO[kind], os.strerror(ERRNO[kind]), str(path))
        # a full disk stays full
        for f in self.faults:
            if f[1] == "ENOSPC" and len(f) > 2 and f[2] is True and self.ops > f[0] and what in ("write", "mkdir", "create", "open-w"):
                if self.on_fault is not None:
                    self.on_fault(f[1], what, path)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(path))
        self.run.log("fs", what, self.show(path))
        return None

    def crash(self, what, path):
        self.run.fault("process crash")
        self.run.log("fs", what, self.show(path), "-> crash")
        self.crashed = True
        if self.sched is not None and self.sched.active():
            self.sched.cur.proc.dead = True
        raise Crash(f"process died at {what}")

    def done(self, what, path):
        """After an operation took effect."""
        if self.bypass:
            return
        self.observe()
        if self.watch is not None:
            self.watch(what, path)

    def observe(self):
        """What another process would find now."""
        now = {}
        for root in self.roots:
            for d, _, files in os.walk(root):
                for f in files:
                    p = os.path.join(d, f)
                    try:
                        st = os.lstat(p)
                        key = (st.st_ino, st.st_size, st.st_mtime_ns)
                        if self.seen.get(p) == key and self.history.get(p) and not self.dirty(p):
                            now[p] = self.history[p][-1]
                            continue
                        self.seen[p] = key
                        fd = R["open"](p, os.O_RDONLY)
                        try:
                            data = b""
                            while True:
                                b = R["read"](fd, 1 << 20)
                                if not b:
                                    break
                                data += b
                        finally:
                            R["close"](fd)
                        now[p] = data
                    except OSError:
                        continue
        for p in set(now) | set(self.history):
            h = self.history.setdefault(p, [])
            v = now.get(p)
            if not h or h[-1] != v:
                h.append(v)

    def dirty(self, p):
        return True

    # -- patched entry points

    def install(self):
        fs = self
        self._saved = {n: getattr(os, n) for n in R}
        self._saved_io = io.open
        self._saved_builtin = builtins.open
        self._saved_tmp = tempfile.tempdir
        self._saved_names = tempfile._name_sequence
        self._saved_copy = (shutil._USE_CP_SENDFILE, getattr(shutil, "_USE_CP_COPY_FILE_RANGE", None))
        shutil._USE_CP_SENDFILE = False
        if self.tmp:
            tempfile.tempdir = self.tmp
        tempfile._name_sequence = _Names()

        def full(path, dir_fd):
            if isinstance(path, int) or dir_fd is None:
                return path
            base = fs.fds.get(dir_fd)
            if base is None or os.path.isabs(os.fsdecode(path)):
                return path
            return os.path.join(base, os.fsdecode(path))

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            p = full(path, dir_fd)
            if not fs.inside(p):
                return R["open"](path, flags, mode, dir_fd=dir_fd)
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            fs.op("open-w" if w else "open", p)
            fd = R["open"](path, flags, mode, dir_fd=dir_fd)
            fs.fds[fd] = os.path.abspath(os.fsdecode(p))
            if w:
                fs.done("open-w", p)
            return fd

        def os_close(fd):
            fs.fds.pop(fd, None)
            return R["close"](fd)

        def os_write(fd, data):
            if fd not in fs.fds:
                return R["write"](fd, data)
            data = memoryview(data).cast("B")[: fs.chunk]
            how = fs.op("write", fd)
            if how == "short":
                data = data[: max(1, len(data) // 2)]
            if how == "torn":
                data = data[: len(data) // 2]
            n = R["write"](fd, data)
            fs.done("write", fd)
            if how == "torn":
                fs.crash("write", fd)
            return n

        def two(name, what):
            def f(src, dst, *a, **kw):
                s = full(src, kw.get("src_dir_fd"))
                d = full(dst, kw.get("dst_dir_fd", kw.get("dir_fd")))
                if not (fs.inside(d) or (what == "replace" and fs.inside(s))):
                    return R[name](src, dst, *a, **kw)
                fs.op(what, d)
                r = R[name](src, dst, *a, **kw)
                fs.done(what, d)
                return r

            return f

        def one(name, what):
            def f(path, *a, **kw):
                p = full(path, kw.get("dir_fd"))
                if not fs.inside(p):
                    return R[name](path, *a, **kw)
                fs.op(what, p)
                r = R[name](path, *a, **kw)
                fs.done(what, p)
                return r

            return f

        def unsupported(name):
            def f(*a, **kw):
                if any(isinstance(x, int) and x in fs.fds for x in a):
                    raise SimUnsupported(f"os.{name} on a simulated file")
                return R[name](*a, **kw)

            return f

        os.open, os.close, os.write = os_open, os_close, os_write
        os.replace, os.rename = two("replace", "replace"), two("rename", "replace")
        os.link, os.symlink = two("link", "link"), two("symlink", "link")
        os.unlink, os.remove = one("unlink", "unlink"), one("remove", "unlink")
        os.mkdir, os.rmdir = one("mkdir", "mkdir"), one("rmdir", "rmdir")
        os.truncate, os.ftruncate = one("truncate", "truncate"), one("ftruncate", "truncate")
        os.fsync = one("fsync", "fsync")
        os.chmod = one("chmod", "chmod")
        for n in ("dup", "dup2", "sendfile", "copy_file_range"):
            if n in R:
                setattr(os, n, unsupported(n))
        # os.makedirs calls mkdir through its own module's globals: patched above.

        def io_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                    closefd=True, opener=None):
            args = (file, mode, buffering, encoding, errors, newline, closefd, opener)
            if fs.bypass or not fs.inside(file):
                return R_IO_OPEN(*args)
            writing = any(c in mode for c in "wax+")
            if not writing:
                if not isinstance(file, int):
                    fs.op("open", file)
                return R_IO_OPEN(*args)
            if "+" in mode and "a" in mode:
                raise SimUnsupported(f"open mode {mode!r}")
            if isinstance(file, int):
                fd, path = file, fs.fds[file]
            else:
                flags = os.O_CLOEXEC | (os.O_RDWR if "+" in mode else os.O_WRONLY)
                flags |= os.O_CREAT if any(c in mode for c in "wax") else 0
                flags |= os.O_EXCL if "x" in mode else os.O_APPEND if "a" in mode else os.O_TRUNC if "w" in mode else 0
                if opener is not None:
                    fd = opener(file, flags)
                    fs.fds.setdefault(fd, os.path.abspath(os.fsdecode(file)))
                else:
                    fd = os_open(file, flags, 0o666)
                path = fs.fds[fd]
            raw = _Raw(fs, fd, file if not isinstance(file, int) else fd, "+" in mode, closefd)
            if buffering == 0:
                return raw
            size = fs.chunk if buffering in (-1, 1) else min(buffering, fs.chunk)
            buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
            if "b" in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
            text.mode = mode
            return text

        io.open = builtins.open = io_open
        self.installed = True
        self.observe()
        return self

    def uninstall(self):
        if not self.installed:
            return
        self.installed = False
        for n, f in self._saved.items():
            setattr(os, n, f)
        io.open, builtins.open = self._saved_io, self._saved_builtin
        tempfile.tempdir, tempfile._name_sequence = self._saved_tmp, self._saved_names
        shutil._USE_CP_SENDFILE = self._saved_copy[0]

    def __enter__(self):
        return self.install()

    def __exit__(self, *exc):
        self.uninstall()

    def destroy(self):
        self.uninstall()
        for fd in list(self.fds):
            try:
                R["close"](fd)
            except OSError:
                pass
        self.fds.clear()
        shutil.rmtree(self.root, ignore_errors=True)


class _Raw(io.RawIOBase):
    """The file behind the buffers."""

    def __init__(self, fs, fd, name, readable, closefd):
        self.fs, self.fd, self.name, self._r, self._closefd = fs, fd, name, readable, closefd
        self.mode = "rb+" if readable else "wb"
        active = fs.sched is not None and fs.sched.active()
        self.proc = fs.sched.cur.proc if active else None

    def writable(self):
        return True

    def readable(self):
        return self._r

    def seekable(self):
        return stat.S_ISREG(os.fstat(self.fd).st_mode)

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        return R["lseek"](self.fd, off, whence)

    def tell(self):
        return R["lseek"](self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        data = R["read"](self.fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, data):
        if self.gone():
            raise Crash("the process is dead")
        return os.write(self.fd, data)

    def gone(self):
        # What a dead process had in its buffers is lost, whenever they are freed.
        return (
            not self.fs.installed
            or self.fd not in self.fs.fds
            or (self.proc is not None and self.proc.dead)
            or (self.proc is None and self.fs.crashed)
        )

    def close(self):
        if self.closed:
            return
        if self.gone():
            super().close()
            return
        try:
            super().close()
        finally:
            if self._closefd and self.fd in self.fs.fds:
                os.close(self.fd)
