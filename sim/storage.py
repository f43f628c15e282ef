"""Simulated storage: the file operations of the code under test, with faults.

Files live in the scratch directory of the run (real file system), but every operation on a path
below it passes through here: it is a scheduling point, it is counted, and it may fail, tear or kill
the process.  Semantics of a crash: user-space buffers of a dead process are lost; after a power
loss the unsynchronised tail of a file may be missing (a prefix survives); operations on directory
entries are ordered and survive.
"""
import builtins
import errno
import io
import os
import sys
import tempfile

from .world import SimCrash

_real = {n: getattr(os, n) for n in
         ("open", "mkdir", "rename", "replace", "remove", "unlink", "rmdir", "stat", "listdir", "scandir", "fsync",
          "fdatasync", "access", "truncate", "link", "symlink", "lstat", "getpid", "write", "close")}
_real_open = io.open


class Session:
    """Stands for a process when no world is used."""
    def __init__(self, name, rank=0, index=0):
        self.name, self.rank, self.dead, self.index = name, rank, False, index


class Storage:
    def __init__(self, tape, stats, world=None, root=None, stream="disk"):
        self.t, self.st, self.world, self.stream = tape, stats, world, stream
        self.root = os.path.realpath(root or os.getcwd())
        self.session = None              # used without a world
        self.ops = 0
        self.log = []                    # (process, operation, relative path)
        self.synced = {}                 # inode -> bytes known durable
        self.power_lost = False
        self.fds = {}
        self.fired = []
        # fault plan
        self.crash_op = None             # number of the operation at which the process dies
        self.crash_power = False
        self.capacity = None             # bytes left on the disk
        self.eio = {}                    # operation number -> errno
        self.short = 0                   # percentage of short transfers
        self.eio_kinds = ("write", "open", "read", "mkdir", "rename", "replace", "unlink")
        self.names = 0

    # ---------------------------------------------------------------- helpers
    def me(self):
        return self.world.current if self.world is not None else self.session

    def inside(self, path):
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(path)))
        except TypeError:
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        return None

    def point(self, op, rel, who=None, data=None):
        """One storage operation: yields, counts, applies faults.  Returns the number of bytes to transfer."""
        p = who if who is not None else self.me()
        if p is None:
            return data
        if p.dead:
            raise SimCrash()
        if self.world is not None and self.world.current is not None:
            self.world.yield_point("disk:%s %s" % (op, rel))
        if p.dead:
            raise SimCrash()
        k = self.ops
        self.ops += 1
        self.log.append((p.name, p.rank, op, rel))
        if self.eio.get(k) and op in self.eio_kinds:
            self.st.hit("fault:io_error")
            self.fired.append(("eio", op, rel, k))
            raise OSError(self.eio[k], os.strerror(self.eio[k]), rel)
        if self.crash_op is not None and k >= self.crash_op and not self.power_lost:
            self.crash_op = None
            return self.crash(op, rel, p, data)
        if self.capacity is not None and op in ("write", "mkdir", "create"):
            need = data if op == "write" else 0
            if self.capacity <= 0 and (op != "write" or need > 0):
                self.st.hit("fault:disk_full")
                self.fired.append(("enospc", op, rel, k))
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
            if op == "write":
                data = min(need, self.capacity)
                self.capacity -= data
        if op in ("write", "read") and self.short and data and data > 1 and \
                self.t.chance(self.stream, self.short, 100):
            self.st.hit("fault:short_" + op)
            data = 1 + self.t.draw(self.stream, data - 1)
        return data

    def crash(self, op, rel, p, data):
        self.fired.append(("crash", op, rel, self.ops - 1))
        self.st.hit("fault:power_loss" if self.crash_power else "fault:process_kill")
        if op == "write" and data:
            # part of the transfer may still make it
            return ("crash", self.t.draw(self.stream, data + 1))
        if op not in ("read", "write") and self.t.chance(self.stream, 1, 2):
            return ("crash", -1)                # the operation takes place, then the process dies
        self.die(p)
        raise SimCrash()

    def die(self, p):
        if self.crash_power:
            self.power_lost = True
        if self.world is None:
            p.dead = True
            return
        if self.crash_power:
            for j in self.world.jobs:
                self.world.kill_job(j)
        else:
            self.world.kill_job(p.job)

    def settle(self):
        """After everybody is gone: apply the effects of a power loss to the files."""
        if not self.power_lost:
            return
        self.session = None
        for d, _, fs in sorted(os.walk(self.root)):
            for f in sorted(fs):
                path = os.path.join(d, f)
                s = _real["stat"](path)
                base = self.synced.get(s.st_ino)
                if base is None or base >= s.st_size:
                    continue
                if self.t.chance(self.stream, 1, 2):
                    n = base + self.t.draw(self.stream, s.st_size - base + 1)
                    if n < s.st_size:
                        self.st.hit("fault:lost_tail")
                        _real["truncate"](path, n)
        self.synced.clear()

    # ------------------------------------------------------------- file objects
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            rel = self.fds.get(file)
        else:
            rel = self.inside(file)
        if rel is None or self.me() is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = self.me()
        after = None
        if not isinstance(file, int):
            existed = os.path.lexists(file) if False else _exists(file)
            kind = "open" if not any(c in mode for c in "wxa+") else ("trunc" if existed else "create")
            after = self.point(kind if kind != "trunc" else "open", rel)
        m = mode.replace("b", "").replace("t", "").replace("U", "")
        raw = SimRaw(self, file, m, rel, p, closefd, opener)
        if isinstance(after, tuple):
            self.die(p)
            raise SimCrash()
        binary = "b" in mode
        if buffering == 0 and binary:
            return raw
        n = buffering if buffering > 1 else 8192
        if "+" in m:
            buf = io.BufferedRandom(raw, n)
        elif "r" in m:
            buf = io.BufferedReader(raw, n)
        else:
            buf = io.BufferedWriter(raw, n)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)

    # ----------------------------------------------------------------- installing
    def install(self):
        st = self

        def wrap(name, op, mutating=True, args=1):
            real = _real[name]

            def f(path, *a, **kw):
                rel = st.inside(path) if not isinstance(path, int) else None
                if rel is None or st.me() is None or kw.get("dir_fd") is not None:
                    return real(path, *a, **kw)
                r = st.point(op, rel)
                if isinstance(r, tuple):
                    try:
                        real(path, *a, **kw)
                    except OSError:
                        pass
                    st.die(st.me())
                    raise SimCrash()
                return real(path, *a, **kw)
            f.__name__ = name
            return f

        for name, op in (("mkdir", "mkdir"), ("rename", "rename"), ("replace", "replace"), ("remove", "unlink"),
                         ("unlink", "unlink"), ("rmdir", "rmdir"), ("stat", "stat"), ("lstat", "stat"),
                         ("listdir", "list"), ("scandir", "list"), ("access", "stat"), ("truncate", "truncate"),
                         ("link", "link"), ("symlink", "symlink")):
            if name in ("listdir", "scandir"):
                real = _real[name]

                def f(path=".", _r=real, _o=op):
                    rel = st.inside(path) if not isinstance(path, int) else None
                    if rel is not None and st.me() is not None:
                        st.point(_o, rel)
                    if _r is _real["listdir"]:
                        return sorted(_r(path))
                    return _r(path)
                setattr(os, name, f)
            else:
                setattr(os, name, wrap(name, op))

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            rel = st.inside(path)
            if rel is None or st.me() is None or dir_fd is not None:
                return _real["open"](path, flags, mode, dir_fd=dir_fd)
            new = bool(flags & os.O_CREAT) and not _exists(path)
            r = st.point("create" if new else "open", rel)
            fd = _real["open"](path, flags, mode)
            if isinstance(r, tuple):
                _real["close"](fd)
                st.die(st.me())
                raise SimCrash()
            st.fds[fd] = rel
            if new or flags & os.O_TRUNC:
                st.synced[os.fstat(fd).st_ino] = 0
            return fd

        def os_write(fd, data):
            rel = st.fds.get(fd)
            if rel is None or st.me() is None:
                return _real["write"](fd, data)
            n = len(data)
            r = st.point("write", rel, data=n)
            if isinstance(r, tuple):
                _real["write"](fd, bytes(data)[:max(r[1], 0)])
                st.die(st.me())
                raise SimCrash()
            return _real["write"](fd, bytes(data)[:r])

        def os_close(fd):
            st.fds.pop(fd, None)
            return _real["close"](fd)

        def sync(name):
            real = _real[name]

            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                rel = st.fds.get(n)
                if rel is not None and st.me() is not None:
                    r = st.point("fsync", rel)
                    s = os.fstat(n)
                    st.synced[s.st_ino] = s.st_size
                    if isinstance(r, tuple):
                        st.die(st.me())
                        raise SimCrash()
                return real(fd)
            return f

        def getpid():
            p = st.me()
            return 1000 + p.index if p is not None else _real["getpid"]()

        os.open, os.write, os.close, os.getpid = os_open, os_write, os_close, getpid
        os.fsync, os.fdatasync = sync("fsync"), sync("fdatasync")
        builtins.open = self.open
        io.open = self.open
        self._names = tempfile._get_candidate_names

        class Seq:
            def __iter__(self):
                return self

            def __next__(self):
                st.names += 1
                return "sim%06d" % st.names
        seq = Seq()
        tempfile._get_candidate_names = lambda: seq

    def remove(self):
        for n, f in _real.items():
            setattr(os, n, f)
        builtins.open = _real_open
        io.open = _real_open
        tempfile._get_candidate_names = self._names

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *a):
        self.remove()

    def as_session(self, name="s", rank=0):
        self.session = Session(name, rank)
        return self.session


def _exists(path):
    try:
        _real["stat"](path)
        return True
    except OSError:
        return False


class SimRaw(io.RawIOBase):
    def __init__(self, st, file, mode, rel, proc, closefd, opener):
        self._f = io.FileIO(file, mode, closefd, opener)
        self._st, self._rel, self._p = st, rel, proc
        self._fd = self._f.fileno()
        st.fds[self._fd] = rel
        self.name = file
        self._append = "a" in mode
        if "w" in mode or "x" in mode:
            st.synced[os.fstat(self._fd).st_ino] = 0
        elif "a" in mode or "+" in mode:
            s = os.fstat(self._fd)
            st.synced.setdefault(s.st_ino, s.st_size)
        self.mode = self._f.mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        self._st.point("truncate", self._rel, self._p)
        return self._f.truncate(size)

    def readinto(self, b):
        n = self._st.point("read", self._rel, self._p, len(b))
        if isinstance(n, tuple):
            self._st.die(self._p)
            raise SimCrash()
        return self._f.readinto(memoryview(b)[:n])

    def write(self, b):
        b = memoryview(b).cast("B")
        n = self._st.point("write", self._rel, self._p, len(b))
        if isinstance(n, tuple):
            self._f.write(b[:n[1]])
            self._st.die(self._p)
            raise SimCrash()
        return self._f.write(b[:n])

    def fileno(self):
        # NumPy bypasses the file object for "real" files; keep it on this path
        if sys._getframe(1).f_code.co_name == "isfileobj":
            raise io.UnsupportedOperation("fileno")
        return self._f.fileno()

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            self._st.fds.pop(self._fd, None)
            try:
                super().close()
            finally:
                self._f.close()


def draw_plan(t, s, max_ops, kinds=("none", "crash", "power", "enospc", "eio"), cap_max=6000, stream="fault"):
    """Draws one fault plan for storage s."""
    k = t.weighted(stream, [(x, 1 if x == "none" else 2) for x in kinds])
    if k in ("crash", "power"):
        s.crash_op = t.draw(stream, max_ops)
        s.crash_power = k == "power"
    elif k == "enospc":
        s.capacity = t.draw(stream, cap_max)
    elif k == "eio":
        s.eio = {t.draw(stream, max_ops): errno.EIO}
    if t.chance(stream, 1, 3):
        s.short = t.between(stream, 5, 60)
    return k
