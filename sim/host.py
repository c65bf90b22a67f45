"""Simulated processes.

A simulated process is a fork of the warm interpreter that holds the imported package. The
controller never runs code under test itself, so every simulated process starts from the same
state. Several simulated processes never run at the same time: in concurrent runs each one
stops at every file operation and the controller decides who goes on.
"""
import gc
import io
import os
import pickle
import select
import signal
import struct
import sys
import tempfile
import time
import traceback

from .core import HarnessError
from .fs import FS

LIVE = set()      # simulated processes not yet ended
NOBODY = 65534


def drop_privileges():
    """Code under test can reach nothing but its world, whatever it does."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


class Outcome:
    """How a simulated process ended."""

    def __init__(self, status):
        self.status = status      # ok | exc | exit | crash | hang
        self.value = None
        self.exc = None           # (type name, message, [mro names])
        self.code = None
        self.stdout = ""
        self.stderr = ""
        self.ops = []
        self.fired = []
        self.synced = {}
        self.trace = ""
        self.extra = {}

    @property
    def good(self):
        return self.status == "ok" or (self.status == "exit" and not self.code)

    def brief(self):
        if self.status == "exc":
            return ("exc", self.exc[0])
        if self.status == "exit":
            return ("exit", self.code)
        return (self.status,)

    def __repr__(self):
        if self.status == "exc":
            return f"<raised {self.exc[0]}: {self.exc[1][:200]}>"
        if self.status == "exit":
            return f"<exit {self.code}>"
        return f"<{self.status}>"


def world_base():
    """The directory that holds all scratch data of this check process."""
    for base in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return base
    raise HarnessError("no scratch space")


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
    data = struct.pack(">Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _read_exact(fd, n, deadline):
    chunks = []
    while n:
        left = deadline - time.monotonic()
        if left <= 0:
            raise TimeoutError
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            raise TimeoutError
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError
        chunks.append(b)
        n -= len(b)
    return b"".join(chunks)


def _recv(fd, deadline):
    (n,) = struct.unpack(">Q", _read_exact(fd, 8, deadline))
    return pickle.loads(_read_exact(fd, n, deadline))


class TempNames:
    def __init__(self, tag):
        self.tag, self.n = tag, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return f"t{self.tag}_{self.n:04d}"


class Proc:
    """One simulated process."""

    def __init__(self, fn, root, plan=None, bufsize=None, order=None, env=None, setup=None,
                 choices=None, interactive=False, name="p", fs=True, cwd=None):
        self.root = root
        self.name = name
        self.interactive = interactive
        self.choices = choices
        self.mark = choices.mark() if choices is not None else 0
        up_r, up_w = os.pipe()
        down_r, down_w = os.pipe() if interactive else (None, None)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(up_r)
                if interactive:
                    os.close(down_w)
                self._child(fn, plan, bufsize, order, env, setup, up_w, down_r, fs, cwd)
            finally:
                os._exit(99)
        os.close(up_w)
        if interactive:
            os.close(down_r)
        self.pid, self.up, self.down = pid, up_r, down_w
        self.pending = None
        self.outcome = None
        LIVE.add(self)

    # ------------------------------------------------------------ inside the process
    def _child(self, fn, plan, bufsize, order, env, setup, up, down, use_fs, cwd):
        os.setsid()
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err
        res = Outcome("ok")
        self.res = res
        tmp = os.path.join(self.root, ".tmp")
        for k, v in (env or {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if env and "TZ" in env:
            time.tzset()
        drop_privileges()
        os.chdir(os.path.join(self.root, cwd or ""))
        tempfile._name_sequence = TempNames(self.name)
        tempfile.tempdir = self.root

        fs = None

        def finish():
            res.stdout, res.stderr = out.getvalue(), err.getvalue()
            if fs is not None:
                res.ops, res.fired, res.synced = fs.ops, fs.fired, fs.synced
            exp = self.choices.export(self.mark) if self.choices is not None else None
            try:
                _send(up, ("done", res, exp))
            except Exception as e:  # value cannot be pickled
                res.value = None
                res.extra = {"pickle": repr(e)}
                _send(up, ("done", res, exp))
            os._exit(0)

        def crash(_fs):
            res.status = "crash"
            finish()

        def on_op(kind, rel, size):
            _send(up, ("op", kind, rel, size))
            go = os.read(down, 1)
            if go != b"g":
                res.status = "crash"
                finish()

        if use_fs:
            fs = FS(self.root, plan, bufsize, order, on_op if self.interactive else None, crash)
            fs.install()
            self.fs = fs
        try:
            if setup is not None:
                setup(self)
            res.value = fn()
        except SystemExit as e:
            res.status = "exit"
            c = e.code
            res.code = c if isinstance(c, int) else (0 if c is None else 1)
            res.value = None
            res.trace = traceback.format_exc()
        except BaseException as e:
            res.status = "exc"
            res.exc = (type(e).__name__, str(e)[:2000], [c.__name__ for c in type(e).__mro__])
            res.trace = traceback.format_exc()[-3000:]
        finish()

    # ------------------------------------------------------------ controller side
    def step(self, timeout=60.0):
        """Advances until the next message; returns ('op', ...) or ('done',)."""
        try:
            msg = _recv(self.up, time.monotonic() + timeout)
        except TimeoutError:
            self.kill()
            self.outcome = Outcome("hang")
            return ("done",)
        except EOFError:
            self.kill()
            self.outcome = Outcome("lost")
            return ("done",)
        if msg[0] == "op":
            self.pending = msg[1:]
            return msg
        _, res, exp = msg
        self.outcome = res
        if exp is not None:
            self.choices.adopt(exp)
        self.reap()
        return ("done",)

    def go(self):
        self.pending = None
        os.write(self.down, b"g")

    def crash_now(self):
        """The process dies at the operation it is stopped at."""
        self.pending = None
        os.write(self.down, b"x")

    def reap(self):
        for fd in (self.up, self.down):
            if fd is not None:
                try:
                    os.close(fd)
                except OSError:
                    pass
        self.up = self.down = None
        LIVE.discard(self)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.reap()

    def wait(self, timeout=60.0):
        while self.outcome is None:
            m = self.step(timeout)
            if m[0] == "op":
                self.go()
        return self.outcome


HANG_S = 60.0


def run_process(fn, root, **kw):
    """Runs fn in a new simulated process to its end."""
    timeout = kw.pop("timeout", HANG_S)
    p = Proc(fn, root, **kw)
    out = p.wait(timeout)
    if out.status == "lost":
        raise HarnessError("simulated process vanished")
    return out


class World:
    """A scratch directory for the files of one run."""

    def __init__(self):
        self.top = tempfile.mkdtemp(prefix="vsim-", dir=world_base())
        self.root = os.path.join(self.top, "w")
        os.umask(0)
        os.chmod(self.top, 0o711)
        os.mkdir(self.root)
        with open(os.path.join(self.top, "owner"), "w") as f:
            f.write(str(os.getpid()))

    def fresh(self):
        from .fs import wipe
        wipe(self.root)
        return self.root

    def close(self):
        import shutil
        shutil.rmtree(self.top, ignore_errors=True)


def warm():
    gc.collect()
    gc.freeze()
