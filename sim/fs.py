"""Simulated storage layer for file based collections.

Files live in a private scratch directory (tmpfs); the Python level file API is
intercepted for paths below that directory.  Every intercepted primitive is a
*point*: the scheduler may switch threads there, a fault may fire there and a
crash snapshot may be taken there.  Modification times come from the simulated
clock.  Calls on any other path go straight to the real functions.
"""

import builtins
import errno
import io
import os
import shutil

_real = {
    "open": builtins.open,
    "os.open": os.open,
    "os.close": os.close,
    "os.write": os.write,
    "os.read": os.read,
    "os.replace": os.replace,
    "os.rename": os.rename,
    "os.remove": os.remove,
    "os.unlink": os.unlink,
    "os.stat": os.stat,
    "os.lstat": os.lstat,
    "os.fsync": os.fsync,
    "os.link": os.link,
    "os.truncate": os.truncate,
    "os.utime": os.utime,
    "os.scandir": os.scandir,
    "os.listdir": os.listdir,
}
real_open = _real["open"]

WRITE_KINDS = {
    "open_w", "write", "replace", "remove", "link", "truncate", "utime", "creat",
}


class StubLimit(BaseException):
    """The code under test uses something a stand-in does not simulate."""


class Fault:
    """One injected I/O error: fires at the `nth` matching point after arming."""

    def __init__(self, kinds, nth, err, partial=0):
        self.kinds = kinds
        self.left = nth
        self.err = err
        self.partial = partial
        self.fired = None

    def exc(self, kind, path):
        if isinstance(self.err, BaseException):
            return self.err
        return OSError(self.err, os.strerror(self.err), path)


class FS:
    def __init__(self):
        self.root = None
        self.clock = 10**18
        self.fault = None
        self.on_point = None
        self.log_writes = []
        self.counts = {}
        self.fired = {}
        self.fds = {}
        self.written = set()
        self.hold = 0

    # -- life cycle ----------------------------------------------------
    def begin(self, root):
        self.root = root
        self.clock = 10**18
        self.fault = None
        self.on_point = None
        self.log_writes = []
        self.fds = {}
        self.written = set()
        self.hold = 0

    def end(self):
        self.root = None
        self.fault = None
        self.on_point = None

    def owns(self, path):
        root = self.root
        if root is None or self.hold:
            return False
        if type(path) is not str:
            if isinstance(path, int):
                return False
            try:
                path = os.fspath(path)
            except TypeError:
                return False
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        return path.startswith(root)

    def tick(self):
        self.clock += 1_000_003
        return self.clock

    # -- points --------------------------------------------------------
    def point(self, kind, path):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if kind in WRITE_KINDS:
            self.log_writes.append((kind, str(path)))
        if self.on_point is not None:
            self.on_point(kind, path)
        f = self.fault
        if f is not None and f.fired is None and kind in f.kinds:
            f.left -= 1
            if f.left <= 0:
                f.fired = kind
                self.fired[kind] = self.fired.get(kind, 0) + 1
                return f
        return None

    def check(self, kind, path):
        f = self.point(kind, path)
        if f is not None:
            raise f.exc(kind, path)

    def after(self, kind, path):
        if self.on_point is not None:
            self.on_point(kind + "+", path)

    def set_mtime(self, path):
        t = self.tick()
        try:
            _real["os.utime"](path, ns=(t, t))
        except OSError:
            pass


FSX = FS()


class SimFile:
    """A file object with user-space buffering, as built-in open() has it."""

    BUF = 8192

    def __init__(self, path, mode, buffering, encoding, errors, newline, opener):
        self.name = path
        self.mode = mode
        self.encoding = encoding or "utf-8"
        self._errors = errors or "strict"
        self._binary = "b" in mode
        self._nobuf = buffering == 0
        self._w = any(c in mode for c in "wax+")
        self._pend = b""
        self._dirty = False
        self.closed = False
        rawmode = mode.replace("b", "").replace("t", "")
        FSX.check("open_w" if self._w else "open_r", path)
        existed = True
        if self._w:
            existed = os.path.lexists(path) if False else _exists(path)
        self._raw = io.FileIO(path, rawmode, opener=opener)
        if self._w and ("w" in mode or "x" in mode or not existed):
            FSX.set_mtime(path)
        FSX.after("open_w" if self._w else "open_r", path)

    # reading
    def _dec(self, b):
        return b if self._binary else b.decode(self.encoding, self._errors)

    def read(self, n=-1):
        self.flush()
        FSX.check("read", self.name)
        if n is None or n < 0:
            return self._dec(self._raw.readall())
        return self._dec(self._raw.read(n))

    def readall(self):
        return self.read()

    def read1(self, n=-1):
        return self.read(n)

    def peek(self, n=0):
        pos = self._raw.tell()
        b = self.read(n or self.BUF)
        self._raw.seek(pos)
        return b

    def readline(self, n=-1):
        self.flush()
        FSX.check("read", self.name)
        return self._dec(self._raw.readline(n))

    def readlines(self, hint=-1):
        return list(self)

    def readinto(self, b):
        self.flush()
        FSX.check("read", self.name)
        return self._raw.readinto(b)

    readinto1 = readinto

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    # writing
    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        if isinstance(data, str):
            if self._binary:
                raise TypeError("a bytes-like object is required, not 'str'")
            b = data.encode(self.encoding, self._errors)
        else:
            if not self._binary:
                raise TypeError("write() argument must be str")
            b = bytes(data)
        self._pend += b
        if self._nobuf or len(self._pend) > self.BUF:
            self.flush()
        else:
            FSX.after("buffered_write", self.name)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not self._pend:
            return
        data, self._pend = self._pend, b""
        os_write(self._raw, data, self.name)
        self._dirty = True

    def seek(self, pos, whence=0):
        self.flush()
        return self._raw.seek(pos, whence)

    def tell(self):
        return self._raw.tell() + len(self._pend)

    def truncate(self, size=None):
        self.flush()
        FSX.check("truncate", self.name)
        r = self._raw.truncate(size)
        self._dirty = True
        FSX.after("truncate", self.name)
        return r

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
            FSX.check("close", self.name)
        finally:
            self.closed = True
            # The file may have been renamed while open: use the descriptor.
            if self._dirty:
                t = FSX.tick()
                try:
                    _real["os.utime"](self._raw.fileno(), ns=(t, t))
                except OSError:
                    pass
            FSX.fds.pop(self._raw.fileno(), None)
            self._raw.close()
            FSX.after("close", self.name)

    def fileno(self):
        return self._raw.fileno()

    def isatty(self):
        return False

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return self._w

    def seekable(self):
        return True

    @property
    def buffer(self):
        return self

    @property
    def raw(self):
        return self

    @property
    def errors(self):
        return self._errors

    newlines = None
    line_buffering = write_through = False

    def __getattr__(self, name):
        if any(hasattr(c, name) for c in (io.TextIOWrapper, io.BufferedRandom, io.FileIO)):
            raise StubLimit(f"file method {name} is not simulated")
        raise AttributeError(name)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __del__(self):
        if not self.closed:
            self.closed = True
            try:
                if self._pend:
                    self._raw.write(self._pend)
                self._raw.close()
            except Exception:
                pass


def _exists(path):
    try:
        _real["os.lstat"](path)
        return True
    except OSError:
        return False


def os_write(raw, data, path):
    """Hand `data` to the OS; a fault may leave any prefix behind."""
    f = FSX.point("write", path)
    if f is not None:
        k = min(f.partial, len(data))
        if k:
            raw.write(data[:k])
        raise f.exc("write", path)
    if FSX.on_point is not None and len(data) > 1:
        # expose prefixes of the write (crash points)
        cuts = getattr(FSX, "cuts", None)
        if cuts is not None:
            done = 0
            for k in cuts(len(data)):
                if done < k < len(data):
                    raw.write(data[done:k])
                    done = k
                    FSX.on_point("write%", path)
            raw.write(data[done:])
        else:
            raw.write(data)
    else:
        raw.write(data)
    FSX.after("write", path)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if FSX.owns(file):
        return SimFile(os.fspath(file), mode, buffering, encoding, errors, newline, opener)
    if isinstance(file, int) and file in FSX.fds and FSX.root is not None:
        path = FSX.fds[file]
        sf = SimFile.__new__(SimFile)
        sf.name, sf.mode, sf.encoding = path, mode, encoding or "utf-8"
        sf._errors, sf._binary, sf._nobuf = errors or "strict", "b" in mode, buffering == 0
        sf._w = any(c in mode for c in "wax+")
        sf._pend, sf._dirty, sf.closed = b"", False, False
        sf._raw = io.FileIO(file, mode.replace("b", "").replace("t", ""), closefd=closefd)
        return sf
    return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _wrap2(name, kind):
    real = _real["os." + name]

    def fn(src, dst, *a, **k):
        if FSX.owns(dst) or FSX.owns(src):
            FSX.check(kind, dst)
            r = real(src, dst, *a, **k)
            FSX.after(kind, dst)
            return r
        return real(src, dst, *a, **k)

    fn.__name__ = name
    return fn


def _wrap1(name, kind):
    real = _real["os." + name]

    def fn(path, *a, **k):
        if FSX.owns(path):
            FSX.check(kind, path)
            r = real(path, *a, **k)
            FSX.after(kind, path)
            return r
        return real(path, *a, **k)

    fn.__name__ = name
    return fn


def sim_os_open(path, flags, mode=0o777, **k):
    if FSX.owns(path):
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        FSX.check("open_w" if w else "open_r", path)
        new = flags & os.O_TRUNC or (flags & os.O_CREAT and not _exists(path))
        fd = _real["os.open"](path, flags, mode, **k)
        FSX.fds[fd] = os.fspath(path)
        FSX.written.discard(fd)
        if new:
            FSX.set_mtime(path)
        FSX.after("open_w" if w else "open_r", path)
        return fd
    return _real["os.open"](path, flags, mode, **k)


def sim_os_write(fd, data):
    if fd in FSX.fds and FSX.root is not None and not FSX.hold:
        class R:
            @staticmethod
            def write(b):
                _real["os.write"](fd, b)
        FSX.written.add(fd)
        os_write(R, bytes(data), FSX.fds[fd])
        return len(data)
    return _real["os.write"](fd, data)


def sim_os_read(fd, n):
    if fd in FSX.fds and FSX.root is not None and not FSX.hold:
        FSX.check("read", FSX.fds[fd])
    return _real["os.read"](fd, n)


def sim_os_close(fd):
    if fd in FSX.fds:
        path = FSX.fds.pop(fd)
        if FSX.root is not None and not FSX.hold:
            if fd in FSX.written:
                FSX.written.discard(fd)
                t = FSX.tick()
                try:
                    _real["os.utime"](fd, ns=(t, t))
                except OSError:
                    pass
            _real["os.close"](fd)
            FSX.after("close", path)
            return
    _real["os.close"](fd)


def sim_fsync(fd):
    if FSX.root is not None and not FSX.hold:
        FSX.check("fsync", "fd")
        return None
    return _real["os.fsync"](fd)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_os_close
    os.read = sim_os_read
    os.fsync = sim_fsync
    os.replace = _wrap2("replace", "replace")
    os.rename = _wrap2("rename", "replace")
    os.link = _wrap2("link", "link")
    os.remove = _wrap1("remove", "remove")
    os.unlink = _wrap1("unlink", "remove")
    os.stat = _wrap1("stat", "stat")
    os.truncate = _wrap1("truncate", "truncate")
    os.utime = _wrap1("utime", "utime")


# -- raw access for the harness and the simulated outside writers ---------
def raw_bytes(path):
    try:
        with real_open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def raw_put(path, data, style="replace"):
    """Outside writer: replace the file content, with a fresh modification time."""
    if style == "replace":
        tmp = os.path.join(os.path.dirname(path), ".outside_tmp")
        with real_open(tmp, "wb") as f:
            f.write(data)
        t = FSX.tick()
        _real["os.utime"](tmp, ns=(t, t))
        _real["os.replace"](tmp, path)
    else:
        with real_open(path, "wb") as f:
            f.write(data)
        t = FSX.tick()
        _real["os.utime"](path, ns=(t, t))


def raw_remove(path):
    try:
        _real["os.unlink"](path)
    except FileNotFoundError:
        pass


def raw_sig(path):
    """(bytes, inode, mtime) or None if missing."""
    try:
        st = _real["os.stat"](path)
    except FileNotFoundError:
        return None
    return (raw_bytes(path), st.st_ino, st.st_mtime_ns)


def listing(root):
    return sorted(_real["os.listdir"](root))


def snapshot(root):
    """{name: bytes} of all files in the scratch directory."""
    out = {}
    for name in _real["os.listdir"](root):
        p = root + name if root.endswith("/") else root + "/" + name
        try:
            with real_open(p, "rb") as f:
                out[name] = f.read()
        except (IsADirectoryError, FileNotFoundError):
            pass
    return out


_SCRATCH = None
_RUN = 0


def scratch_base():
    """Per-process scratch directory, removed by the parent (runner)."""
    global _SCRATCH
    base = os.environ.get("VSIM_SCRATCH")
    if not base:
        raise RuntimeError("VSIM_SCRATCH not set")
    pid = os.getpid()
    if _SCRATCH is None or _SCRATCH[0] != pid:
        d = os.path.join(base, f"p{pid}")
        os.makedirs(d, exist_ok=True)
        _SCRATCH = (pid, d)
    return _SCRATCH[1]


def new_run_dir():
    """A fresh directory with a name of constant shape; unique per run."""
    global _RUN
    _RUN += 1
    d = os.path.join(scratch_base(), f"r{_RUN:08d}") + "/"
    os.makedirs(d)
    return d


def drop_run_dir(d):
    base = os.environ.get("VSIM_SCRATCH", "")
    if base and d.startswith(base + "/") and "/r0" in d:
        shutil.rmtree(d, ignore_errors=True)


def drop_process_scratch():
    if _SCRATCH is not None and _SCRATCH[0] == os.getpid():
        FSX.end()
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)
