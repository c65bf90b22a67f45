"""Disk seam.

Files live in a scratch directory (the world) that the check creates and removes. Every
file operation on a path inside the world is an *operation*: it is numbered and logged, it can be the
place where the simulated process hands over to another one, and it can be hit by a fault.
Paths outside the world (the interpreter's own files) are not touched by the seam.
"""
import builtins
import errno
import io
import os
import shutil
import stat as _stat

_real_open = builtins.open
_real = {n: getattr(os, n) for n in (
    "open", "remove", "unlink", "rename", "replace", "mkdir", "rmdir", "listdir", "scandir",
    "truncate", "link", "symlink", "utime", "fsync", "chmod")}

ERRNO = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES,
         "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT, "EMFILE": errno.EMFILE}

WRITE_OPS = ("open_w", "write", "close_w", "remove", "rename", "mkdir", "truncate", "fsync",
             "imwrite", "nc_write")

# which faults make sense at which operation
APPLICABLE = {
    "open_r": ["EIO", "EACCES", "EMFILE"],
    "open_w": ["EACCES", "ENOSPC", "EROFS"],
    "read": ["EIO"],
    "write": ["ENOSPC", "EIO", "EDQUOT"],
    "close_w": ["EIO", "ENOSPC"],
    "close_r": [],
    "remove": ["EACCES", "EIO"],
    "rename": ["EACCES", "EIO", "ENOSPC"],
    "mkdir": ["EACCES", "ENOSPC"],
    "listdir": ["EIO", "EACCES"],
    "truncate": ["EIO"],
    "fsync": ["EIO"],
}


class Crash(BaseException):
    """Raised only inside the seam to end the simulated process at once."""


class FS:
    def __init__(self, root, plan=None, bufsize=None, order=None, on_op=None, crash=None):
        self.root = os.path.realpath(root)
        self.plan = plan or {}       # op number -> dict(kind=..., frac=..., sticky=bool)
        self.bufsize = bufsize
        self.order = order           # permutation of directory listings: f(list) -> list
        self.on_op = on_op           # scheduling point
        self.crash = crash           # called to die
        self.ops = []
        self.fired = []
        self.sticky = None
        self.synced = {}             # path -> bytes known to be on the platter
        self.installed = False
        self.reads_short = False

    # ------------------------------------------------------------ helpers
    def inside(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        ap = os.path.normpath(os.path.join(os.getcwd(), p))
        if ap == self.root or ap.startswith(self.root + os.sep):
            return os.path.relpath(ap, self.root)
        rp = os.path.realpath(ap)
        if rp == self.root or rp.startswith(self.root + os.sep):
            return os.path.relpath(rp, self.root)
        return None

    def op(self, kind, rel, size=0):
        """Registers an operation; returns the fault to apply or None."""
        if self.on_op is not None:
            self.on_op(kind, rel, size)
        n = len(self.ops)
        self.ops.append((kind, rel, size))
        f = self.plan.get(n)
        if f is None and self.sticky is not None and kind in self.sticky["ops"]:
            f = self.sticky
        if f is None:
            return None
        k = f["kind"]
        if k == "crash":
            self.fired.append((n, kind, rel, k))
            return f
        if k == "short":
            if kind in ("read", "write"):
                self.fired.append((n, kind, rel, k))
                return f
            return None
        if k not in APPLICABLE.get(kind, ()):
            return None
        self.fired.append((n, kind, rel, k))
        if f.get("sticky") and self.sticky is None:
            ops = ("write", "open_w", "close_w", "rename", "mkdir") if kind in WRITE_OPS \
                else ("read", "open_r")
            self.sticky = dict(f, ops=[o for o in ops if k in APPLICABLE[o]])
        return f

    def raise_(self, f, path):
        e = ERRNO[f["kind"]]
        raise OSError(e, os.strerror(e), str(path))

    def simple(self, kind, rel, path):
        f = self.op(kind, rel)
        if f is not None:
            if f["kind"] == "crash":
                if f.get("after"):
                    return f
                self.crash(self)
            self.raise_(f, path)
        return None

    # ------------------------------------------------------------ open
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        rel = self.inside(file)
        if rel is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        modes = set(mode)
        binary = "b" in modes
        writing = bool(modes & set("wax+"))
        raw_mode = "".join(c for c in mode if c in "rwax+")
        f = self.simple("open_w" if writing else "open_r", rel, file)
        existed = os.path.exists(os.path.join(self.root, rel))
        before = os.path.getsize(os.path.join(self.root, rel)) if existed else 0
        raw = SimRaw(file, raw_mode, closefd=closefd, opener=opener)
        raw.sim_setup(self, rel, writing)
        if writing:
            self.synced.setdefault(rel, 0 if ("w" in modes or not existed) else before)
        if f is not None:
            self.crash(self)
        size = buffering
        if size == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = False
        if size == 1 and not binary:
            size, line_buffering = -1, True
        if size < 0:
            size = self.bufsize or io.DEFAULT_BUFFER_SIZE
        if "+" in modes:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text

    # ------------------------------------------------------------ os.*
    def install(self):
        fs = self

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            rel = fs.inside(path) if dir_fd is None else None
            if rel is not None:
                w = flags & (os.O_WRONLY | os.O_RDWR)
                f = fs.simple("open_w" if w else "open_r", rel, path)
                if f is not None:
                    fs.crash(fs)
            return _real["open"](path, flags, mode, dir_fd=dir_fd)

        def one(kind, name):
            real = _real[name]

            def call(path, *a, **k):
                rel = fs.inside(path) if not k.get("dir_fd") else None
                if rel is None:
                    return real(path, *a, **k)
                f = fs.simple(kind, rel, path)
                r = real(path, *a, **k)
                if f is not None:
                    fs.crash(fs)
                return r
            call.__name__ = name
            return call

        def two(name):
            real = _real[name]

            def call(src, dst, *a, **k):
                rel = fs.inside(dst)
                rel = rel if rel is not None else fs.inside(src)
                if rel is None:
                    return real(src, dst, *a, **k)
                f = fs.simple("rename", f"{fs.inside(src)}>{rel}", dst)
                r = real(src, dst, *a, **k)
                if f is not None:
                    fs.crash(fs)
                return r
            call.__name__ = name
            return call

        def listdir(path="."):
            rel = fs.inside(path)
            names = _real["listdir"](path)
            if rel is None:
                return names
            fs.simple("listdir", rel, path)
            return fs.order(sorted(names)) if fs.order else sorted(names)

        class Scan:
            def __init__(self, entries):
                self.it = iter(entries)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def scandir(path="."):
            rel = fs.inside(path)
            if rel is None:
                return _real["scandir"](path)
            fs.simple("listdir", rel, path)
            with _real["scandir"](path) as it:
                entries = {e.name: e for e in it}
            names = sorted(entries)
            names = fs.order(names) if fs.order else names
            return Scan([entries[n] for n in names])

        def fsync(fd):
            fs.op("fsync", "?")
            for rel in list(fs.synced):
                p = os.path.join(fs.root, rel)
                if os.path.exists(p):
                    fs.synced[rel] = os.path.getsize(p)
            n = fd if isinstance(fd, int) else fd.fileno()
            return _real["fsync"](n)

        builtins.open = fs.open
        io.open = fs.open
        os.open = os_open
        for name in ("remove", "unlink"):
            setattr(os, name, one("remove", name))
        os.rmdir = one("remove", "rmdir")
        os.mkdir = one("mkdir", "mkdir")
        os.truncate = one("truncate", "truncate")
        os.rename = two("rename")
        os.replace = two("replace")
        os.listdir = listdir
        os.scandir = scandir
        os.fsync = fsync
        import glob
        import pathlib
        if hasattr(glob, "os"):
            pass
        if hasattr(pathlib, "os"):
            pass
        self.installed = True


class SimRaw(io.FileIO):
    """A real file whose operations pass the seam."""

    def sim_setup(self, fs, rel, writing):
        self._fs, self._rel, self._w = fs, rel, writing
        self._done = False

    def readinto(self, b):
        f = self._fs.op("read", self._rel, 0)
        if f is not None:
            if f["kind"] == "crash":
                self._fs.crash(self._fs)
            if f["kind"] == "short":
                data = super().read(max(1, int(len(b) * f.get("frac", 0.5))))
                b[:len(data)] = data
                return len(data)
            self._fs.raise_(f, self._rel)
        return super().readinto(b)

    def read(self, size=-1):
        f = self._fs.op("read", self._rel, 0)
        if f is not None and f["kind"] == "crash":
            self._fs.crash(self._fs)
        if f is not None and f["kind"] != "short":
            self._fs.raise_(f, self._rel)
        return super().read(size)

    def readall(self):
        f = self._fs.op("read", self._rel, 0)
        if f is not None and f["kind"] == "crash":
            self._fs.crash(self._fs)
        if f is not None and f["kind"] != "short":
            self._fs.raise_(f, self._rel)
        return super().readall()

    def write(self, b):
        n = len(b)
        f = self._fs.op("write", self._rel, n)
        if f is None:
            return super().write(b)
        part = int(n * f.get("frac", 0.5))
        if f["kind"] == "short":
            part = max(1, part)
            return super().write(bytes(b)[:part])
        if part and not f.get("nothing"):
            super().write(bytes(b)[:part])
        if f["kind"] == "crash":
            self._fs.crash(self._fs)
        self._fs.raise_(f, self._rel)

    def close(self):
        if self.closed or getattr(self, "_fs", None) is None or self._done:
            return super().close()
        self._done = True
        f = self._fs.op("close_w" if self._w else "close_r", self._rel)
        if f is not None and f["kind"] == "crash":
            self._fs.crash(self._fs)
        super().close()
        if f is not None and f["kind"] != "short":
            self._fs.raise_(f, self._rel)


# ---------------------------------------------------------------- world snapshots
def snapshot(root):
    """{relative path: bytes} of every file, {path: None} for directories."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        rel = os.path.relpath(d, root)
        if rel != ".":
            out[rel + "/"] = None
        for n in sorted(files):
            p = os.path.join(d, n)
            with _real_open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def restore(root, snap):
    """Makes the world equal to a snapshot."""
    wipe(root)
    for rel, data in snap.items():
        p = os.path.join(root, rel)
        if data is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with _real_open(p, "wb") as f:
                f.write(data)


def wipe(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
