"""Simulated disk: a private scratch directory whose files are accessed through a raw layer that
transfers short, fails, fills up, and records a journal from which the surviving contents after a
crash are drawn.  Buffering, text decoding and gzip above it are the real ones."""
import builtins
import errno
import io
import os
import shutil
import stat

from . import kernel
from .kernel import SimCrash

real_open = io.open
R = {name: getattr(os, name) for name in
     ("remove", "unlink", "rename", "replace", "mkdir", "makedirs", "rmdir", "listdir", "scandir",
      "utime", "truncate", "removedirs", "open", "fsync", "fdatasync", "stat", "link", "symlink")}


class FS:
    def __init__(self, ctx, root):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.active = False         # faults and short transfers are drawn only while active
        self.dead = False           # the simulated process has died
        self.short_reads = 0.0      # probabilities
        self.short_writes = 0.0
        self.p_eio_read = 0.0
        self.p_eio_write = 0.0
        self.p_eio_sync = 0.0
        self.crash_at_op = None     # die before the n-th disk operation (open, write, rename, ...)
        self.p_list_fail = 0.0
        self.fail_read_at = None    # absolute byte offset within any file read: EIO when reached
        self.fail_list = None
        self.capacity = None        # free bytes left, None = unlimited
        self.crash_after_writes = None
        self.fault_errnos = (errno.EIO,)
        self.open_files = []
        self.journal = []           # (path, op, offset, data)
        self.journaling = False
        self.opens = 0
        self.write_calls = 0
        self.read_calls = 0
        self.fired_write = 0
        self.fired_read = 0
        self.known_mtime = {}
        self.escapes = []
        self.permute_listing = False
        self.locale = "utf-8"       # what the host stores text in
        self.bad_paths = set()      # files whose reads always fail
        self.shut_paths = set()     # files that cannot be opened
        self.fail_open_in = None    # how many more times a file can be opened before one time it cannot
        self.fired_open = 0

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def p(self, name):
        return os.path.join(self.root, name)

    # -- helpers for workloads (not simulated, no faults) --
    def put(self, name, data):
        path = self.p(name)
        R["makedirs"](os.path.dirname(path), exist_ok=True)
        with real_open(path, "wb") as f:
            f.write(data)
        return path

    def get(self, name):
        path = name if os.path.isabs(name) else self.p(name)
        if not os.path.exists(path):
            return None
        with real_open(path, "rb") as f:
            return f.read()

    def all_files(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in sorted(fs):
                out.append(os.path.join(d, f))
        return sorted(out)

    def stamp_mtimes(self):
        """Give every file changed since the last call the simulated time."""
        for path in self.all_files():
            st = R["stat"](path)
            if self.known_mtime.get(path) != (st.st_ino, st.st_mtime_ns, st.st_size):
                ns = self.ctx.clock.wall * 1000
                R["utime"](path, ns=(ns, ns))
                st = R["stat"](path)
                self.known_mtime[path] = (st.st_ino, st.st_mtime_ns, st.st_size)

    def touch(self, path):
        """The simulated time is the file's time if it has changed since it was last given one."""
        path = os.path.realpath(path)
        try:
            st = R["stat"](path)
            if stat.S_ISREG(st.st_mode) and self.known_mtime.get(path) != (st.st_ino, st.st_mtime_ns, st.st_size):
                self.set_mtime(path, self.ctx.clock.wall)
        except OSError:
            pass

    def set_mtime(self, path, micros):
        R["utime"](path, ns=(micros * 1000, micros * 1000))
        st = R["stat"](path)
        self.known_mtime[path] = (st.st_ino, st.st_mtime_ns, st.st_size)

    def step(self, what):
        """Every operation of the simulated process on its disk passes here."""
        if self.dead:
            raise SimCrash("dead process used the disk (%s)" % what)
        if self.active and self.crash_at_op is not None:
            self.crash_at_op -= 1
            if self.crash_at_op < 0:
                self.crash_at_op = None
                self.die("before-" + what)
        if self.ctx.sched is not None:
            self.ctx.sched.point(what)

    # -- crash --
    def die(self, why):
        self.dead = True
        self.ctx.fired("crash:" + why)
        raise SimCrash(why)

    def crash_image(self, stream="fault", power=False):
        """After a death: rewrite every journaled file to what survived.  A killed process keeps
        every completed write; after a power loss each file keeps a drawn set of its pages."""
        c = self.ctx.c
        by = {}
        for path, op, off, data in self.journal:
            by.setdefault(path, []).append((op, off, data))
        self.journal = []
        for path, ops in sorted(by.items()):
            if not os.path.exists(path) or not power:
                continue
            kind = c.draw(stream, 4)
            data = self.get(path)
            if kind == 0:
                continue                                    # everything made it
            if kind == 1:                                   # a prefix made it
                data = data[:c.draw(stream, len(data) + 1)]
                self.ctx.fired("power:prefix")
            elif kind == 2:                                 # some pages are zeros
                page = (64, 512, 4096)[c.draw(stream, 3)]
                pages = [data[i:i + page] for i in range(0, len(data), page)]
                lost = 0
                for i in range(len(pages)):
                    if c.chance(stream, 0.3):
                        pages[i] = b"\0" * len(pages[i])
                        lost += 1
                data = b"".join(pages)
                if lost:
                    self.ctx.fired("power:lost-pages")
            else:                                           # only the metadata made it
                data = b""
                self.ctx.fired("power:empty")
            with real_open(path, "wb") as f:
                f.write(data)
        for f in list(self.open_files):
            f._kill()
        self.dead = False

    def leaked(self):
        return [f for f in self.open_files if not f.closed]


class SimRaw(io.FileIO):
    """A raw file of the simulated disk."""

    def __init__(self, fs, path, mode):
        self._fs = fs
        self._path = path
        self._killed = False
        existed = os.path.exists(path)
        super().__init__(path, mode)
        if fs.journaling and ("w" in mode or not existed):
            fs.journal.append((path, "trunc", 0, b""))
        fs.open_files.append(self)
        fs.opens += 1
        fs.ctx.log("open", os.path.relpath(path, fs.root), mode)

    def _kill(self):
        self._killed = True
        if not self.closed:
            super().close()

    def close(self):
        if self in self._fs.open_files:
            self._fs.open_files.remove(self)
            self._fs.ctx.log("close", os.path.relpath(self._path, self._fs.root))
        super().close()

    def _gate(self, what):
        self._fs.step(what)

    def _before_read(self, n):
        fs = self._fs
        self._gate("read")
        fs.read_calls += 1
        if not fs.active:
            return n
        c = fs.ctx.c
        pos = self.tell()
        if self._path in fs.bad_paths:
            fs.fired_read += 1
            fs.ctx.fired("read:EIO")
            raise OSError(errno.EIO, "simulated read error")
        if fs.fail_read_at is not None and pos + max(n, 1) > fs.fail_read_at:
            if pos >= fs.fail_read_at:
                fs.fired_read += 1
                fs.ctx.fired("read:EIO")
                raise OSError(errno.EIO, "simulated read error")
            n = fs.fail_read_at - pos
        if fs.p_eio_read and c.chance("fault", fs.p_eio_read):
            fs.fired_read += 1
            fs.ctx.fired("read:EIO")
            raise OSError(errno.EIO, "simulated read error")
        if fs.short_reads and n > 1 and c.chance("fault", fs.short_reads):
            m = 1 + c.draw("fault", min(n, 4096) if c.draw("fault", 2) == 0 else min(n, 16))
            if m < n:
                fs.ctx.fired("read:short")
                n = m
        return n

    def readinto(self, b):
        mv = memoryview(b).cast("B")
        n = self._before_read(len(mv))
        return super().readinto(mv[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        n = self._before_read(size)
        return super().read(n)

    def readall(self):
        out = []
        while True:
            n = self._before_read(65536)
            data = super().read(n)
            if not data:
                return b"".join(out)
            out.append(data)

    def write(self, b):
        fs = self._fs
        self._gate("write")
        fs.write_calls += 1
        data = bytes(b)
        n = len(data)
        crash = False
        if fs.active and n:
            c = fs.ctx.c
            if fs.p_eio_write and c.chance("fault", fs.p_eio_write):
                fs.fired_write += 1
                e = fs.fault_errnos[c.draw("fault", len(fs.fault_errnos))]
                fs.ctx.fired("write:" + errno.errorcode[e])
                raise OSError(e, "simulated write error")
            if fs.capacity is not None and n > fs.capacity:
                n = fs.capacity
                if n == 0:
                    fs.fired_write += 1
                    fs.ctx.fired("write:ENOSPC")
                    raise OSError(errno.ENOSPC, "simulated disk full")
            if fs.short_writes and n > 1 and c.chance("fault", fs.short_writes):
                m = 1 + c.draw("fault", n)
                if m < n:
                    fs.ctx.fired("write:short")
                    n = m
            if fs.crash_after_writes is not None:
                if n >= fs.crash_after_writes:
                    n = fs.crash_after_writes
                    crash = True
                else:
                    fs.crash_after_writes -= n
        off = self.tell() if self.seekable() else 0
        if n:
            super().write(data[:n])
            if fs.journaling:
                fs.touch(self._path)
            if fs.capacity is not None:
                fs.capacity -= n
            if fs.journaling:
                fs.journal.append((self._path, "write", off, data[:n]))
        if crash:
            fs.die("during-write")
        return n

    def truncate(self, size=None):
        self._gate("truncate")
        if self._fs.journaling:
            self._fs.journal.append((self._path, "trunc", 0, b""))
        return super().truncate(size)


def _fs():
    ctx = kernel.CURRENT
    return ctx.fs if ctx is not None else None


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
             opener=None):
    fs = _fs()
    if fs is None or isinstance(file, int) or opener is not None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(ch in mode for ch in "wax+")
    if not fs.inside(file):
        if writing:
            fs.escapes.append(("open", str(file)))
            raise PermissionError(errno.EACCES, "simulation: write outside the simulated disk", str(file))
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs.step("open")
    path = os.fspath(file)
    if fs.active:
        fail = path in fs.shut_paths
        if fs.fail_open_in is not None:
            fs.fail_open_in -= 1
            if fs.fail_open_in < 0:
                fs.fail_open_in = None
                fail = True
        if fail:
            code = fs.ctx.c.pick("fault", [errno.EMFILE, errno.EACCES, errno.EIO, errno.ENFILE, errno.ENOMEM, errno.ESTALE])
            fs.fired_open += 1
            fs.ctx.fired("open:" + errno.errorcode[code])
            raise OSError(code, "simulated: " + os.strerror(code), path)
    binary = "b" in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        return real_open(file, mode, buffering, encoding, errors, newline)      # raises ValueError
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    raw = SimRaw(fs, path, rawmode)
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else getattr(fs, "buffer_size", 0) or io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    if encoding in (None, "locale"):
        encoding = fs.locale                # what the host would take
        if encoding != "utf-8":
            fs.ctx.fired("host:text-encoding")
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
    text.mode = mode
    return text


def _contained(name, npaths):
    real = R[name]

    def wrapper(*a, **kw):
        fs = _fs()
        if fs is not None:
            for path in a[:npaths]:
                if not fs.inside(path):
                    fs.escapes.append((name, str(path)))
                    raise PermissionError(errno.EACCES, "simulation: %s outside the simulated disk" % name, str(path))
            fs.step(name)
            if name != "makedirs":
                fs.ctx.log(name, *[os.path.relpath(os.fspath(p), fs.root) for p in a[:npaths]])
        return real(*a, **kw)
    wrapper.__name__ = name
    return wrapper


def _listdir(path="."):
    out = R["listdir"](path)
    fs = _fs()
    if fs is not None and fs.inside(path):
        fs.step("listdir")
        if fs.active and fs.p_list_fail and fs.ctx.c.chance("fault", fs.p_list_fail):
            fs.ctx.fired("listdir:EIO")
            raise OSError(errno.EIO, "simulated directory read error")
        out = sorted(out)
        if fs.permute_listing:
            out = fs.ctx.c.shuffle("fault", out)
    return out


def _scandir(path="."):
    fs = _fs()
    if fs is None or not fs.inside(path):
        return R["scandir"](path)
    with R["scandir"](path) as it:
        entries = sorted(it, key=lambda e: e.name)
    if fs.permute_listing:
        entries = fs.ctx.c.shuffle("fault", entries)
    return iter_scan(entries)


class iter_scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _synced(fd):
    """fsync of a simulated file: what was written to it so far survives a power loss."""
    fs = _fs()
    if fs is None:
        return False
    for f in fs.open_files:
        if not f.closed and f.fileno() == fd:
            fs.step("fsync")
            if fs.active and fs.p_eio_sync and fs.ctx.c.chance("fault", fs.p_eio_sync):
                fs.fired_write += 1
                fs.ctx.fired("fsync:EIO")
                raise OSError(errno.EIO, "simulated fsync error")
            fs.journal = [j for j in fs.journal if j[0] != f._path]
            fs.ctx.log("fsync", os.path.relpath(f._path, fs.root))
            return True
    return False


def _fsync(fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    if not _synced(n):
        R["fsync"](fd)


def _fdatasync(fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    if not _synced(n):
        R["fdatasync"](fd)


def _renamed(name):
    """rename and replace: unsynced contents keep being unsynced under the new name."""
    inner = _contained(name, 2)

    def wrapper(src, dst, *a, **kw):
        fs = _fs()
        out = inner(src, dst, *a, **kw)
        if fs is not None:
            s, d = os.fspath(src), os.fspath(dst)
            fs.journal = [((d,) + j[1:] if j[0] == s else j) for j in fs.journal if j[0] != d]
            for f in fs.open_files:
                if f._path == s:
                    f._path = d
            rs, rd = os.path.realpath(s), os.path.realpath(d)
            if rs in fs.known_mtime:
                fs.known_mtime[rd] = fs.known_mtime.pop(rs)
        return out
    wrapper.__name__ = name
    return wrapper


def _stat(path, *a, **kw):
    fs = _fs()
    if fs is not None and not isinstance(path, int) and not kw.get("dir_fd") and fs.inside(path):
        fs.touch(os.fspath(path))
    return R["stat"](path, *a, **kw)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = _fs()
    if fs is not None and not fs.inside(path) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        fs.escapes.append(("os.open", str(path)))
        raise PermissionError(errno.EACCES, "simulation: write outside the simulated disk", str(path))
    return R["open"](path, flags, mode, dir_fd=dir_fd) if dir_fd is not None else R["open"](path, flags, mode)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.fsync, os.fdatasync = _fsync, _fdatasync
    os.rename, os.replace = _renamed("rename"), _renamed("replace")
    for name, n in (("remove", 1), ("unlink", 1), ("mkdir", 1),
                    ("makedirs", 1), ("rmdir", 1), ("truncate", 1), ("removedirs", 1)):
        setattr(os, name, _contained(name, n))
    os.listdir = _listdir
    os.scandir = _scandir
    os.open = _os_open
    os.stat = _stat


def remove_tree(path):
    """Remove a scratch directory of our own (absolute path below the scratch base)."""
    base = os.path.realpath(scratch_base())
    p = os.path.realpath(path)
    if not p.startswith(base + os.sep + "verif-sim-"):
        raise kernel.HarnessError("refusing to remove " + p)
    saved = {}
    for name in ("unlink", "rmdir", "open", "scandir", "listdir", "remove"):
        saved[name] = getattr(os, name)
        setattr(os, name, R[name])
    try:
        shutil.rmtree(p, ignore_errors=True)
    finally:
        for name, f in saved.items():
            setattr(os, name, f)


def scratch_base():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
