"""In-memory file system with inodes, descriptors, flock, crash semantics and faults.

Paths under ROOT are served by the current simulation's SimFS; everything else goes to the
real file system.  Installed at the `builtins.open` / `io.open` / `os.*` / `fcntl.flock` level.
"""
from __future__ import annotations

import builtins
import errno
import fcntl
import io
import os
import shutil
import stat as statmod

from . import kernel

ROOT = "/simfs"
FD_BASE = 1 << 20


class Inode:
    __slots__ = ("ino", "kind", "data", "entries", "nlink", "mtime", "ctime", "mode", "locks", "waiters",
                 "durable", "durable_entries")

    def __init__(self, ino, kind, now):
        self.ino = ino
        self.kind = kind  # 'f' or 'd'
        self.data = bytearray()
        self.entries = {}
        self.nlink = 1
        self.mtime = self.ctime = now
        self.mode = 0o600
        self.locks = {}   # ofd -> 'sh' | 'ex'
        self.waiters = []
        self.durable = b""
        self.durable_entries = {}


class OFD:
    """Open file description."""
    __slots__ = ("ino", "pos", "readable", "writable", "append", "proc", "closed", "fd", "path")

    def __init__(self, ino, readable, writable, append, proc, fd, path):
        self.ino, self.pos = ino, 0
        self.readable, self.writable, self.append = readable, writable, append
        self.proc, self.closed, self.fd, self.path = proc, False, fd, path


def err(code, path=None):
    return OSError(code, os.strerror(code), path)


class SimFS:
    def __init__(self, sim):
        self.sim = sim
        self.nino = 1
        self.nfd = FD_BASE
        self.root = Inode(1, "d", sim.wall())
        self.fds = {}
        self.ops = 0
        self.fault_plan = None      # callable(op, path) -> errno | ('short', n) | None
        self.crash_plan = None      # callable(op, path, when) -> bool  (True: crash here)
        self.trace = []
        self.opcount = {}
        self.quota = None
        sim.fs = self

    # -- helpers
    def _parts(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        rel = path[len(ROOT):]
        out = []
        for c in rel.split("/"):
            if c in ("", "."):
                continue
            if c == "..":
                if out:
                    out.pop()
                continue
            out.append(c)
        return out

    def lookup(self, path):
        n = self.root
        for c in self._parts(path):
            if n.kind != "d":
                raise err(errno.ENOTDIR, path)
            n = n.entries.get(c)
            if n is None:
                raise err(errno.ENOENT, path)
        return n

    def parent(self, path):
        ps = self._parts(path)
        if not ps:
            raise err(errno.EBUSY, path)
        n = self.root
        for c in ps[:-1]:
            n = n.entries.get(c)
            if n is None:
                raise err(errno.ENOENT, path)
            if n.kind != "d":
                raise err(errno.ENOTDIR, path)
        if len(ps[-1].encode()) > 255:
            raise err(errno.ENAMETOOLONG, path)
        return n, ps[-1]

    def enter(self, op, path=None):
        """Every file-system call: preemption, crash and fault injection point."""
        s = self.sim
        s.check_alive()
        s.point("fs")
        self.ops += 1
        self.opcount[op] = self.opcount.get(op, 0) + 1
        if self.crash_plan is not None and self.crash_plan(op, path):
            s.fault("crash")
            s.crash(s.cur.proc)
        if self.fault_plan is not None:
            f = self.fault_plan(op, path)
            if f is not None:
                if isinstance(f, int):
                    s.fault("fs_" + errno.errorcode.get(f, str(f)))
                    s.note("FAULT", op, errno.errorcode.get(f, f))
                    raise err(f, path)
                return f
        return None

    # -- operations
    def open_fd(self, path, flags, mode=0o777):
        acc = flags & os.O_ACCMODE
        op = "open_w" if acc != os.O_RDONLY else "open_r"
        self.enter(op, path)
        d, name = self.parent(path)
        n = d.entries.get(name)
        if n is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            self.nino += 1
            n = Inode(self.nino, "f", self.sim.wall())
            n.mode = mode
            d.entries[name] = n
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if n.kind == "d" and acc != os.O_RDONLY:
                raise err(errno.EISDIR, path)
            if flags & os.O_TRUNC and acc != os.O_RDONLY:
                n.data = bytearray()
                n.mtime = n.ctime = self.sim.wall()
        self.nfd += 1
        o = OFD(n, acc != os.O_WRONLY, acc != os.O_RDONLY, bool(flags & os.O_APPEND), self.sim.cur.proc,
                self.nfd, os.fspath(path))
        self.fds[self.nfd] = o
        if not any(getattr(cb, "__self__", None) is self for cb in o.proc.on_crash):
            pass
        return self.nfd

    def ofd(self, fd):
        o = self.fds.get(fd)
        if o is None:
            raise err(errno.EBADF)
        return o

    def read(self, fd, n):
        o = self.ofd(fd)
        if not o.readable:
            raise err(errno.EBADF)
        self.enter("read", o.path)
        if o.ino.kind == "d":
            raise err(errno.EISDIR, o.path)
        b = bytes(o.ino.data[o.pos:o.pos + n])
        o.pos += len(b)
        return b

    def write(self, fd, b):
        o = self.ofd(fd)
        if not o.writable:
            raise err(errno.EBADF)
        b = bytes(b)
        f = self.enter("write", o.path)
        if isinstance(f, tuple) and f[0] == "short" and len(b) > 1:
            self.sim.fault("fs_short_write")
            b = b[:max(1, len(b) * f[1] // 100)]
        if isinstance(f, tuple) and f[0] == "torn":
            # a prefix reaches the file, then the call fails
            self.sim.fault("fs_torn_write")
            p = b[:len(b) * f[1] // 100]
            self._put(o, p)
            raise err(f[2], o.path)
        if isinstance(f, tuple) and f[0] == "crash_torn":
            self.sim.fault("crash_mid_write")
            self._put(o, b[:len(b) * f[1] // 100])
            self.sim.crash(self.sim.cur.proc)
        self._put(o, b)
        return len(b)

    def _put(self, o, b):
        n = o.ino
        if o.append:
            o.pos = len(n.data)
        if o.pos > len(n.data):
            n.data.extend(b"\0" * (o.pos - len(n.data)))
        n.data[o.pos:o.pos + len(b)] = b
        o.pos += len(b)
        n.mtime = n.ctime = self.sim.wall()

    def close(self, fd):
        o = self.fds.pop(fd, None)
        if o is None:
            raise err(errno.EBADF)
        o.closed = True
        self._unlock(o)
        s = self.sim
        if not s.ending and s.cur.killed is None and s.cur.proc.alive:
            s.point("fs")

    def proc_died(self, proc):
        for fd, o in list(self.fds.items()):
            if o.proc is proc:
                del self.fds[fd]
                o.closed = True
                self._unlock(o)

    # -- locks
    def _unlock(self, o):
        if o in o.ino.locks:
            del o.ino.locks[o]
        ws, o.ino.waiters = o.ino.waiters, []
        for w in ws:
            self.sim.wake(w)

    def flock(self, fd, flags):
        o = self.ofd(fd)
        s = self.sim
        if flags & fcntl.LOCK_UN:
            s.check_alive()
            self._unlock(o)
            s.point("fs")
            return
        self.enter("flock", o.path)
        kind = "ex" if flags & fcntl.LOCK_EX else "sh"
        while True:
            others = [k for oo, k in o.ino.locks.items() if oo is not o]
            if not others or (kind == "sh" and "ex" not in others):
                o.ino.locks[o] = kind
                return
            if flags & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, os.strerror(errno.EWOULDBLOCK))
            o.ino.waiters.append(s.cur)
            s.block(None, "flock")

    def unlink(self, path):
        self.enter("unlink", path)
        d, name = self.parent(path)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == "d":
            raise err(errno.EISDIR, path)
        del d.entries[name]
        n.nlink -= 1
        n.ctime = self.sim.wall()

    def rename(self, src, dst):
        self.enter("rename", src)
        d1, n1 = self.parent(src)
        d2, n2 = self.parent(dst)
        n = d1.entries.get(n1)
        if n is None:
            raise err(errno.ENOENT, src)
        t = d2.entries.get(n2)
        if t is n:
            return
        if t is not None and t.kind == "d":
            raise err(errno.EISDIR, dst)
        del d1.entries[n1]
        d2.entries[n2] = n
        n.ctime = self.sim.wall()

    def link(self, src, dst):
        self.enter("link", src)
        d1, n1 = self.parent(src)
        d2, n2 = self.parent(dst)
        n = d1.entries.get(n1)
        if n is None:
            raise err(errno.ENOENT, src)
        if n2 in d2.entries:
            raise err(errno.EEXIST, dst)
        d2.entries[n2] = n
        n.nlink += 1
        n.ctime = self.sim.wall()

    def mkdir(self, path, mode=0o777):
        self.enter("mkdir", path)
        d, name = self.parent(path)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        self.nino += 1
        d.entries[name] = Inode(self.nino, "d", self.sim.wall())

    def rmdir(self, path):
        self.enter("rmdir", path)
        d, name = self.parent(path)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        del d.entries[name]

    def _st(self, n):
        mode = (statmod.S_IFDIR if n.kind == "d" else statmod.S_IFREG) | n.mode
        mt, ct = n.mtime / 1e6, n.ctime / 1e6
        return os.stat_result((mode, n.ino, 99, n.nlink, 0, 0, len(n.data), int(mt), int(mt), int(ct),
                               mt, mt, ct, n.mtime * 1000, n.mtime * 1000, n.ctime * 1000))

    def stat(self, path):
        self.enter("stat", path)
        return self._st(self.lookup(path))

    def fstat(self, fd):
        o = self.ofd(fd)
        self.enter("stat", o.path)
        return self._st(o.ino)

    def truncate(self, fd, size):
        o = self.ofd(fd)
        self.enter("truncate", o.path)
        d = o.ino.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        o.ino.mtime = o.ino.ctime = self.sim.wall()
        return size

    def fsync(self, fd):
        o = self.ofd(fd)
        self.enter("fsync", o.path)

    def scandir(self, path):
        self.enter("scandir", path)
        n = self.lookup(path)
        if n.kind != "d":
            raise err(errno.ENOTDIR, path)
        names = list(n.entries)
        # directory order is unspecified: perturb it deterministically
        if len(names) > 1:
            k = self.sim.draw("f", len(names))
            names = names[k:] + names[:k]
        return SimScan(self, os.fspath(path), names)

    def listdir(self, path):
        return [e.name for e in self.scandir(path)]

    # -- introspection for oracles (no points, no faults)
    def dir(self, path):
        """Inode of a path or None."""
        try:
            return self.lookup(path)
        except OSError:
            return None

    def walk(self, n=None, path=None):
        """Every (path, inode)."""
        n, path = n or self.root, path or ROOT
        for name, i in list(n.entries.items()):
            p = f"{path}/{name}"
            yield p, i
            if i.kind == "d":
                yield from self.walk(i, p)

    def put_file(self, path, data):
        d, name = self.parent(path)
        self.nino += 1
        i = Inode(self.nino, "f", self.sim.wall())
        i.data[:] = data
        d.entries[name] = i

    def peek(self, path):
        n = self.root
        for c in self._parts(path):
            if n.kind != "d" or c not in n.entries:
                return None
            n = n.entries[c]
        return n

    def mkdirs(self, path):
        n = self.root
        for c in self._parts(path):
            if c not in n.entries:
                self.nino += 1
                n.entries[c] = Inode(self.nino, "d", self.sim.wall())
            n = n.entries[c]
        return n


class SimDirEntry:
    def __init__(self, fs, dirpath, name):
        self.name = name
        self.path = os.path.join(dirpath, name)
        self._fs = fs

    def is_file(self, *, follow_symlinks=True):
        n = self._fs.peek(self.path)
        return n is not None and n.kind == "f"

    def is_dir(self, *, follow_symlinks=True):
        n = self._fs.peek(self.path)
        return n is not None and n.kind == "d"

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._fs.stat(self.path)

    def inode(self):
        return self._fs.lookup(self.path).ino

    def __fspath__(self):
        return self.path


class SimScan:
    def __init__(self, fs, path, names):
        self.fs, self.path, self.names = fs, path, names

    def __iter__(self):
        return self

    def __next__(self):
        while self.names:
            self.fs.sim.point("fs")
            name = self.names.pop(0)
            if self.fs.peek(os.path.join(self.path, name)) is None and self.fs.sim.chance("f", 50):
                continue  # readdir may or may not show an entry removed meanwhile
            return SimDirEntry(self.fs, self.path, name)
        raise StopIteration

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.names = []

    def close(self):
        self.names = []


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, readable, writable, name, closefd=True):
        self._fs, self._fd, self._r, self._w = fs, fd, readable, writable
        self.name = name
        self._closefd = closefd

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def readinto(self, b):
        d = self._fs.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = b""
        while True:
            d = self._fs.read(self._fd, 65536)
            if not d:
                return out
            out += d

    def write(self, b):
        return self._fs.write(self._fd, b)

    def seek(self, off, whence=0):
        o = self._fs.ofd(self._fd)
        base = 0 if whence == 0 else (o.pos if whence == 1 else len(o.ino.data))
        o.pos = max(0, base + off)
        return o.pos

    def tell(self):
        return self._fs.ofd(self._fd).pos

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        return self._fs.truncate(self._fd, size)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and self._fd in self._fs.fds:
                    self._fs.close(self._fd)

    def __del__(self):
        pass


def cur_fs():
    s = kernel.CURRENT
    return getattr(s, "fs", None) if s is not None else None


def is_sim_path(p):
    if cur_fs() is None:
        return False
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p == ROOT or p.startswith(ROOT + "/")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = cur_fs()
    creating = "x" in mode
    reading = "r" in mode
    writing = "w" in mode
    appending = "a" in mode
    updating = "+" in mode
    binary = "b" in mode
    if isinstance(file, int):
        fd = file
        o = fs.ofd(fd)
        r, w = reading or updating, writing or appending or creating or updating
    else:
        r = reading or updating
        w = writing or appending or creating or updating
        flags = os.O_RDWR if r and w else (os.O_WRONLY if w else os.O_RDONLY)
        if creating:
            flags |= os.O_CREAT | os.O_EXCL
        if writing:
            flags |= os.O_CREAT | os.O_TRUNC
        if appending:
            flags |= os.O_CREAT | os.O_APPEND
        fd = opener(file, flags) if opener is not None else fs.open_fd(file, flags, 0o666)
    raw = SimRaw(fs, fd, r, w, file, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if r and w:
        buf = io.BufferedRandom(raw, size)
    elif w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def install():
    R = {}

    real_open = builtins.open

    def v_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if (isinstance(file, int) and file >= FD_BASE and cur_fs() is not None) or \
                (not isinstance(file, int) and is_sim_path(file)):
            return sim_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = v_open
    io.open = v_open

    def path1(name, method):
        real = getattr(os, name)
        R[name] = real

        def f(path, *a, **k):
            if not isinstance(path, int) and is_sim_path(path):
                return method(cur_fs(), path, *a, **k)
            return real(path, *a, **k)
        f.__name__ = name
        setattr(os, name, f)

    def fd1(name, method):
        real = getattr(os, name)

        def f(fd, *a, **k):
            if isinstance(fd, int) and fd >= FD_BASE and cur_fs() is not None:
                return method(cur_fs(), fd, *a, **k)
            return real(fd, *a, **k)
        f.__name__ = name
        setattr(os, name, f)

    path1("open", lambda fs, p, flags, mode=0o777, **k: fs.open_fd(p, flags, mode))
    path1("unlink", lambda fs, p, **k: fs.unlink(p))
    path1("remove", lambda fs, p, **k: fs.unlink(p))
    path1("rename", lambda fs, p, q, **k: fs.rename(p, q))
    path1("replace", lambda fs, p, q, **k: fs.rename(p, q))
    path1("link", lambda fs, p, q, **k: fs.link(p, q))
    path1("mkdir", lambda fs, p, mode=0o777, **k: fs.mkdir(p, mode))
    path1("rmdir", lambda fs, p, **k: fs.rmdir(p))
    path1("lstat", lambda fs, p, **k: fs.stat(p))
    path1("listdir", lambda fs, p: fs.listdir(p))
    path1("chmod", lambda fs, p, m, **k: None)
    path1("utime", lambda fs, p, *a, **k: None)
    path1("access", lambda fs, p, m=0, **k: fs.peek(p) is not None)
    real_scandir = os.scandir

    def v_scandir(path="."):
        if not isinstance(path, int) and is_sim_path(path):
            return cur_fs().scandir(path)
        return real_scandir(path)

    os.scandir = v_scandir
    real_stat = os.stat

    def v_stat(path, *a, **k):
        if isinstance(path, int):
            if path >= FD_BASE and cur_fs() is not None:
                return cur_fs().fstat(path)
        elif is_sim_path(path):
            return cur_fs().stat(path)
        return real_stat(path, *a, **k)

    os.stat = v_stat
    fd1("read", lambda fs, fd, n: fs.read(fd, n))
    fd1("write", lambda fs, fd, b: fs.write(fd, b))
    fd1("close", lambda fs, fd: fs.close(fd))
    fd1("fsync", lambda fs, fd: fs.fsync(fd))
    fd1("fdatasync", lambda fs, fd: fs.fsync(fd))
    fd1("fstat", lambda fs, fd: fs.fstat(fd))
    fd1("ftruncate", lambda fs, fd, n: fs.truncate(fd, n))
    fd1("fchmod", lambda fs, fd, m: None)
    fd1("isatty", lambda fs, fd: False)

    def _lseek(fs, fd, off, how):
        o = fs.ofd(fd)
        base = 0 if how == 0 else (o.pos if how == 1 else len(o.ino.data))
        o.pos = base + off
        return o.pos
    fd1("lseek", _lseek)
    real_flock = fcntl.flock

    def v_flock(fd, op):
        f = fd if isinstance(fd, int) else fd.fileno()
        if f >= FD_BASE and cur_fs() is not None:
            return cur_fs().flock(f, op)
        return real_flock(fd, op)

    fcntl.flock = v_flock
    real_lockf = fcntl.lockf

    def v_lockf(fd, op, *a):
        f = fd if isinstance(fd, int) else fd.fileno()
        if f >= FD_BASE and cur_fs() is not None:
            return cur_fs().flock(f, op)
        return real_lockf(fd, op, *a)

    fcntl.lockf = v_lockf
    real_rmtree = shutil.rmtree

    def v_rmtree(path, ignore_errors=False, *a, **k):
        if not is_sim_path(path):
            return real_rmtree(path, ignore_errors, *a, **k)
        fs = cur_fs()

        def rec(p):
            for e in list(fs.scandir(p)):
                if e.is_dir():
                    rec(e.path)
                else:
                    fs.unlink(e.path)
            fs.rmdir(p)
        try:
            rec(os.fspath(path))
        except OSError:
            if not ignore_errors:
                raise

    shutil.rmtree = v_rmtree
    import glob
    import pathlib
    # names bound at import time inside the standard library
    if hasattr(pathlib, "_scandir"):
        pathlib._scandir = v_scandir
    import tempfile
    tempfile._os = os
