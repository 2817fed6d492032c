"""An in-memory file system under Python's file API, with fault injection.

While a `SimFS` is installed, every path under its root (a directory that does
not exist on the real machine) and under its mounts (real directories shadowed
by a simulated one, with the real Python files kept visible) is served from
memory.  Real files elsewhere can be read but never written, created or
removed: such an attempt is refused and recorded as an escape.

Every operation is one event of a single deterministic sequence, so a fault is
"the k-th event", independent of wall time.  Writes reach the simulated disk
when the raw write happens, as in a real process that can be killed: data still
in Python's buffers is lost at a crash.
"""
import builtins
import errno
import io
import os
import posixpath
import stat as stat_mod
import sys

from dst.seams import HarnessError, SimCrash

ROOT = "/vsim"
_REAL = {}


def _oserr(num, path=None):
    return OSError(num, os.strerror(num), path)


class Node:
    __slots__ = ("data", "isdir", "mode", "fake_size", "fault", "writes")

    def __init__(self, data=b"", isdir=False):
        self.data = bytearray(data)
        self.isdir = isdir
        self.fake_size = None
        self.writes = 0


class SimRaw(io.RawIOBase):
    """A raw file on the simulated disk."""

    def __init__(self, fs, path, node, flags):
        super().__init__()
        self.fs = fs
        self.path = path
        self.node = node
        self.can_read = "r" in flags or "+" in flags
        self.can_write = any(c in flags for c in "wax+")
        self.append = "a" in flags
        self.pos = len(node.data) if self.append else 0
        self.name = path
        self.mode = flags
        self.full = False
        fs.handles[id(self)] = self

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.node.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if self.fs.dead:
            return size
        del self.node.data[size:]
        return size

    def readinto(self, buf):
        fault = self.fs.event("read", self.path)
        want = len(buf)
        if fault is not None:
            if fault["kind"] == "short_read":
                want = max(1, min(want, fault.get("size", 1)))
            elif fault["kind"] == "eof":
                return 0
        if self.fs.max_read:
            want = min(want, self.fs.max_read)
        chunk = self.node.data[self.pos:self.pos + want]
        buf[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def write(self, buf):
        data = bytes(buf)
        fault = self.fs.event("write", self.path, before_crash=self._torn,
                              payload=data)
        if self.fs.dead:
            return len(data)
        if self.full:
            # The rest of a torn write never fits
            raise _oserr(errno.ENOSPC, self.path)
        if fault is not None and fault["kind"] in ("short_write",
                                                   "torn_then_enospc"):
            keep = min(len(data), max(1, fault.get("size", 1)))
            if keep == len(data) and fault["kind"] != "short_write":
                keep = len(data) // 2
            self._put(data[:keep])
            self.full = fault["kind"] == "torn_then_enospc"
            if not keep:
                raise _oserr(errno.ENOSPC, self.path)
            return keep
        if self.fs.capacity is not None:
            room = self.fs.capacity - self.fs.used()
            if room < len(data):
                self.fs.count("disk_full")
                if room > 0:
                    self._put(data[:room])
                    return room
                raise _oserr(errno.ENOSPC, self.path)
        self._put(data)
        return len(data)

    def _put(self, data):
        if self.append:
            self.pos = len(self.node.data)
        if self.pos > len(self.node.data):
            self.node.data.extend(b"\0" * (self.pos - len(self.node.data)))
        self.node.data[self.pos:self.pos + len(data)] = data
        self.node.writes += 1
        self.pos += len(data)

    def _torn(self, fault, data):
        """A crash during this write: only a prefix reaches the disk."""
        keep = int(len(data) * fault.get("part", 0.0))
        if keep:
            self._put(data[:keep])

    def close(self):
        if self.closed:
            return
        self.fs.handles.pop(id(self), None)
        super().close()
        if sys.is_finalizing():
            return
        self.fs.event("close", self.path)

    def _dealloc_warn(self, source):
        # Called by the io module when a handle is closed by its finaliser
        self.fs.leaks.append(self.path)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class SimFS:
    """The simulated file system; use as a context manager."""

    def __init__(self, files=None, mounts=(), faults=(), shuffle=None,
                 max_read=0, capacity=None, record=False, block=0):
        self.nodes = {ROOT: Node(isdir=True)}
        self.mounts = {os.path.realpath(real): virt for real, virt in mounts}
        for _, virt in self.mounts.items():
            self.mkdirs(virt)
        self.cwd = ROOT
        self.handles = {}
        self.leaks = []
        self.escapes = []
        self.on_remove = self.on_event = None
        self.dead = False
        self.events = 0
        self.op_counts = {}
        self.fired = {}
        self.faults = [dict(f) for f in faults]
        self.shuffle = shuffle            # random.Random for listing order
        self.max_read = max_read
        self.capacity = capacity
        self.block = block                # block size, 0 for the usual one
        self.trace = [] if record else None
        self.quiet = 0                    # >0: harness access, no events
        self.depth = 0
        for path, data in (files or {}).items():
            self.put(path, data)

    # ------------------------------------------------ harness-side access
    def mkdirs(self, path):
        path = posixpath.normpath(path)
        parts = path.split("/")
        for i in range(2, len(parts) + 1):
            sub = "/".join(parts[:i])
            if sub not in self.nodes:
                self.nodes[sub] = Node(isdir=True)

    def put(self, path, data):
        if isinstance(data, str):
            data = data.encode("utf-8")
        path = posixpath.normpath(path)
        self.mkdirs(posixpath.dirname(path))
        self.nodes[path] = Node(data)

    def get(self, path):
        node = self.nodes.get(posixpath.normpath(path))
        return None if node is None or node.isdir else bytes(node.data)

    def listing(self, path=ROOT):
        path = posixpath.normpath(path).rstrip("/") + "/"
        return sorted(p[len(path):] for p, n in self.nodes.items()
                      if p.startswith(path) and not n.isdir)

    def snapshot(self):
        return {p: bytes(n.data) for p, n in self.nodes.items() if not n.isdir}

    def used(self):
        return sum(len(n.data) for n in self.nodes.values())

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # ------------------------------------------------------------- events
    def event(self, op, path, before_crash=None, payload=None):
        """One I/O step: returns an armed benign fault, raises a failing one."""
        if self.quiet or self.dead:
            return None
        nth = self.op_counts.get(op, 0)
        self.op_counts[op] = nth + 1
        index = self.events
        self.events += 1
        if self.trace is not None:
            self.trace.append((op, path))
        if self.on_event is not None:
            self.on_event(op, path)
        for fault in self.faults:
            if fault.get("done") or not str(path).endswith(
                    fault.get("only", "")):
                continue
            if "at" in fault:
                if fault["at"] != index:
                    continue
                if not _applies(fault["kind"], op):
                    continue
            else:
                if fault.get("op") != op or fault.get("nth", 0) != nth:
                    continue
            if not fault.get("sticky"):
                fault["done"] = True
            kind = fault["kind"]
            self.count(kind + ":" + op)
            if kind == "crash":
                if before_crash is not None:
                    before_crash(fault, payload)
                self.die()
                raise SimCrash("{:s} {:s}".format(op, path))
            if kind == "errno":
                raise _oserr(getattr(errno, fault.get("errno", "EIO")), path)
            if kind == "vanish":
                self.nodes.pop(path, None)
                return None
            if kind == "truncate":
                node = self.nodes.get(path)
                if node is not None:
                    del node.data[int(len(node.data) * fault.get("part", .5)):]
                return None
            return fault
        return None

    def die(self):
        """The simulated process is gone: later I/O has no effect."""
        self.dead = True

    def revive(self):
        """Restart: only what reached the disk survives."""
        self.dead = False
        self.handles.clear()
        self.cwd = ROOT

    # ----------------------------------------------------------- path mapping
    def resolve(self, path):
        """Virtual path for `path`, or None if it is a real path."""
        if isinstance(path, int) or path is None:
            return None
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = posixpath.join(self.cwd, path)
        path = posixpath.normpath(path)
        if path == ROOT or path.startswith(ROOT + "/"):
            return path
        for real, virt in self.mounts.items():
            if path == real:
                return virt
            if path.startswith(real + "/"):
                sub = path[len(real) + 1:]
                if sub.endswith((".py", ".pyc")) or "__pycache__" in sub:
                    return None
                return virt + "/" + sub
        return None

    def refuse(self, op, path):
        self.escapes.append((op, str(path)))
        raise PermissionError(errno.EPERM, "simulated: outside the file system",
                              str(path))

    # -------------------------------------------------------------- file API
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = self.resolve(file)
        if path is None:
            if isinstance(file, int) or not any(c in mode for c in "wax+"):
                return _REAL["open"](file, mode, buffering, encoding, errors,
                                     newline, closefd, opener)
            if os.fspath(file) == os.devnull:
                return _REAL["open"](file, mode, buffering, encoding, errors,
                                     newline, closefd, opener)
            self.refuse("open:" + mode, file)
        if self.dead:
            raise SimCrash("open after crash")
        flags = mode.replace("t", "").replace("U", "r")
        binary = "b" in flags
        flags = flags.replace("b", "")
        self.event("open", path)
        node = self.nodes.get(path)
        parent = self.nodes.get(posixpath.dirname(path))
        if node is not None and node.isdir:
            raise _oserr(errno.EISDIR, path)
        if "r" in flags:
            if node is None:
                raise _oserr(errno.ENOENT, path)
        else:
            if parent is None or not parent.isdir:
                raise _oserr(errno.ENOENT, path)
            if "x" in flags and node is not None:
                raise _oserr(errno.EEXIST, path)
            if node is None:
                node = self.nodes[path] = Node()
            elif "w" in flags:
                del node.data[:]
                node.writes += 1
        raw = SimRaw(self, path, node, flags)
        if buffering == 0:
            return raw
        size = (self.block or io.DEFAULT_BUFFER_SIZE) \
            if buffering in (-1, 1) else buffering
        if raw.can_read and raw.can_write:
            buf = io.BufferedRandom(raw, size)
        elif raw.can_write:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                buffering == 1)
        text.mode = mode
        if self.block:
            # A small file then meets the disk as often as a large one
            text._CHUNK_SIZE = self.block
        return text

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        virt = self.resolve(path)
        if virt is None:
            return _REAL["stat"](path, dir_fd=dir_fd,
                                 follow_symlinks=follow_symlinks)
        self.event("stat", virt)
        return self._stat(virt)

    def _stat(self, virt):
        node = self.nodes.get(virt)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
                                    virt)
        mode = (stat_mod.S_IFDIR | 0o755) if node.isdir else (
            stat_mod.S_IFREG | 0o644)
        size = len(node.data) if node.fake_size is None else node.fake_size
        return os.stat_result((mode, abs(hash(virt)) % 10**6, 1, 1, 0, 0, size,
                               0, 0, 0))

    def lstat(self, path, *, dir_fd=None):
        virt = self.resolve(path)
        if virt is None:
            return _REAL["lstat"](path, dir_fd=dir_fd)
        return self.stat(path)

    def _names(self, virt, real=None):
        pre = virt + "/"
        names = sorted({p[len(pre):].split("/")[0] for p in self.nodes
                        if p.startswith(pre)})
        if real is not None:
            names += sorted(n for n in _REAL["listdir"](real)
                            if n.endswith(".py"))
            names.sort()
        if self.shuffle is not None:
            self.shuffle.shuffle(names)
        return names

    def listdir(self, path="."):
        virt = self.resolve(path)
        if virt is None:
            return _REAL["listdir"](path)
        self.event("listdir", virt)
        node = self.nodes.get(virt)
        if node is None:
            raise _oserr(errno.ENOENT, virt)
        if not node.isdir:
            raise _oserr(errno.ENOTDIR, virt)
        real = [r for r, v in self.mounts.items() if v == virt]
        return self._names(virt, real[0] if real else None)

    def scandir(self, path="."):
        virt = self.resolve(path)
        if virt is None:
            return _REAL["scandir"](path)
        return _Scan(self, os.fspath(path), virt, self.listdir(path))

    def remove(self, path, *, dir_fd=None):
        virt = self.resolve(path)
        if virt is None:
            self.refuse("remove", path)
        if self.dead:
            raise SimCrash("remove after crash")
        self.event("remove", virt)
        node = self.nodes.get(virt)
        if node is None:
            raise _oserr(errno.ENOENT, virt)
        if node.isdir:
            raise _oserr(errno.EISDIR, virt)
        if self.on_remove is not None:
            self.on_remove(virt)
        del self.nodes[virt]

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        virt = self.resolve(path)
        if virt is None:
            real = posixpath.normpath(posixpath.join(self.cwd, os.fspath(path)))
            if any(m.startswith(real.rstrip("/") + "/") for m in self.mounts):
                raise _oserr(errno.EEXIST, real)
            self.refuse("mkdir", path)
        if self.dead:
            raise SimCrash("mkdir after crash")
        self.event("mkdir", virt)
        if virt in self.nodes:
            raise _oserr(errno.EEXIST, virt)
        parent = self.nodes.get(posixpath.dirname(virt))
        if parent is None:
            raise _oserr(errno.ENOENT, virt)
        self.nodes[virt] = Node(isdir=True)

    def rmdir(self, path, *, dir_fd=None):
        virt = self.resolve(path)
        if virt is None:
            self.refuse("rmdir", path)
        self.event("rmdir", virt)
        if any(p.startswith(virt + "/") for p in self.nodes):
            raise _oserr(errno.ENOTEMPTY, virt)
        if self.nodes.pop(virt, None) is None:
            raise _oserr(errno.ENOENT, virt)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        vsrc, vdst = self.resolve(src), self.resolve(dst)
        if vsrc is None or vdst is None:
            self.refuse("rename", dst)
        if self.dead:
            raise SimCrash("rename after crash")
        self.event("rename", vsrc)
        if vsrc not in self.nodes:
            raise _oserr(errno.ENOENT, vsrc)
        self.nodes[vdst] = self.nodes.pop(vsrc)

    def chdir(self, path):
        virt = self.resolve(path)
        if virt is None:
            self.refuse("chdir", path)
        if virt not in self.nodes or not self.nodes[virt].isdir:
            raise _oserr(errno.ENOENT, virt)
        self.cwd = virt

    def getcwd(self):
        return self.cwd

    def access(self, path, mode, **kwargs):
        virt = self.resolve(path)
        if virt is None:
            return _REAL["access"](path, mode, **kwargs)
        return virt in self.nodes

    def noop(self, name):
        def func(path, *args, **kwargs):
            if self.resolve(path) is None:
                self.refuse(name, path)
        return func

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        virt = self.resolve(path)
        if virt is None:
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) \
                    and os.fspath(path) not in ("/dev/null", b"/dev/null"):
                self.refuse("os.open", path)
            return _REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
        raise HarnessError("os.open on a simulated path: " + virt)

    # --------------------------------------------------------- installation
    def __enter__(self):
        if _REAL:
            raise HarnessError("a simulated file system is already installed")
        from numpy.lib import _datasource
        openers = _datasource._file_openers
        openers._load()
        _REAL.update(open=builtins.open, io_open=io.open, os_open=os.open,
                     stat=os.stat, lstat=os.lstat, listdir=os.listdir,
                     scandir=os.scandir, remove=os.remove, unlink=os.unlink,
                     mkdir=os.mkdir, rmdir=os.rmdir, rename=os.rename,
                     replace=os.replace, chdir=os.chdir, getcwd=os.getcwd,
                     access=os.access, chmod=os.chmod, utime=os.utime,
                     np_open=openers._file_openers[None])
        builtins.open = io.open = self.open
        openers._file_openers[None] = self.open
        os.open = self.os_open
        os.stat, os.lstat = self.stat, self.lstat
        os.listdir, os.scandir = self.listdir, self.scandir
        os.remove = os.unlink = self.remove
        os.mkdir, os.rmdir = self.mkdir, self.rmdir
        os.rename = os.replace = self.rename
        os.chdir, os.getcwd, os.access = self.chdir, self.getcwd, self.access
        os.chmod, os.utime = self.noop("chmod"), self.noop("utime")
        return self

    def __exit__(self, *exc):
        from numpy.lib import _datasource
        builtins.open = _REAL["open"]
        io.open = _REAL["io_open"]
        _datasource._file_openers._file_openers[None] = _REAL["np_open"]
        os.open = _REAL["os_open"]
        for name in ("stat", "lstat", "listdir", "scandir", "remove", "unlink",
                     "mkdir", "rmdir", "rename", "replace", "chdir", "getcwd",
                     "access", "chmod", "utime"):
            setattr(os, name, _REAL[name])
        _REAL.clear()
        return False

    def events_total(self):
        return self.events


def _applies(kind, op):
    """Whether a positional fault makes sense for this kind of event."""
    if kind in ("short_read", "eof"):
        return op == "read"
    if kind in ("short_write", "torn_then_enospc"):
        return op == "write"
    return True


class _Scan:
    """os.scandir replacement."""

    def __init__(self, fs, path, virt, names):
        self.items = iter([_Entry(fs, path, virt, name) for name in names])

    def __iter__(self):
        return self.items

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        return None


class _Entry:
    def __init__(self, fs, path, virt, name):
        self.fs, self.name = fs, name
        self.path = posixpath.join(path, name)
        self.virt = posixpath.join(virt, name)

    def is_dir(self, follow_symlinks=True):
        node = self.fs.nodes.get(self.virt)
        return node is not None and node.isdir

    def is_file(self, follow_symlinks=True):
        node = self.fs.nodes.get(self.virt)
        return node is None or not node.isdir

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self.fs._stat(self.virt)

    def __fspath__(self):
        return self.path
