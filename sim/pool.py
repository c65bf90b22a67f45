"""Worker pool seam.

`multiprocessing` pools and `concurrent.futures` executors are replaced by pools with the same
interface. Workers are real forked children (thread pools run in the process itself), but only one
runs at a time: which worker takes the next task, and in which order finished tasks
become known, is taken from the choice sequence. Workers can be killed and creation can fail.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import errno
import gc
import itertools
import multiprocessing as mp
import multiprocessing.context
import multiprocessing.dummy
import multiprocessing.pool as mpp
import os
import pickle
import signal
import struct
import sys
import weakref
from multiprocessing.reduction import ForkingPickler

_Real = {"cpu_count": os.cpu_count}
_RealPPE, _RealTPE = cfp.ProcessPoolExecutor, cft.ThreadPoolExecutor
_RealPool, _RealThreadPool = mpp.Pool, mpp.ThreadPool


class SimHang(BaseException):
    """Nothing can ever make progress again."""


class Plan:
    """What the pool seam does in one simulated process."""

    def __init__(self, choices=None, cpus=4, kill=(), create_fail=(), fifo=False, fail=None):
        self.ch = choices
        self.cpus = cpus
        self.kill = set(kill)                # numbers of dispatches whose worker is killed
        self.create_fail = set(create_fail)  # numbers of pool creations that fail
        self.fail = dict(fail or {})         # dispatches that end with an error of the worker
        self.fifo = fifo                     # plain in-order schedule
        self.log = []
        self.pools = weakref.WeakSet()
        self.created = 0
        self.dispatched = 0
        self.killed = 0
        self.max_workers = 0

    def choose(self, n):
        if n <= 1 or self.fifo or self.ch is None:
            return 0
        return self.ch.int(n)


PLAN = None


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _write(fd, data):
    data = struct.pack(">Q", len(data)) + data
    v = memoryview(data)
    while v:
        n = os.write(fd, v)
        v = v[n:]


def _recv(fd):
    (n,) = struct.unpack(">Q", _read(fd, 8))
    return _read(fd, n)


class _RemoteError(Exception):
    pass


class Worker:
    """A forked worker process."""

    def __init__(self, init=None, initargs=()):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.busy = False
        pid = os.fork()
        if pid == 0:
            global PLAN
            code = 0
            try:
                os.close(w1)
                os.close(r2)
                PLAN = Plan(None, fifo=True)     # nested pools in workers run in order
                if init is not None:
                    init(*initargs)
                while True:
                    try:
                        task = _recv(r1)
                    except EOFError:
                        break
                    try:
                        fn, args, kw = pickle.loads(task)
                        res = (True, fn(*args, **kw))
                    except BaseException as e:  # like the real worker
                        if isinstance(e, (SystemExit, KeyboardInterrupt)) and False:
                            raise
                        res = (False, e)
                    try:
                        data = bytes(ForkingPickler.dumps(res))
                    except Exception as e:
                        data = bytes(ForkingPickler.dumps(
                            (False, mpp.MaybeEncodingError(e, res[1]))))
                    _write(w2, data)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def run(self, task):
        """The outcome, or None when the worker died."""
        try:
            _write(self.w, task)
            data = _recv(self.r)
        except (EOFError, BrokenPipeError):
            return None
        return pickle.loads(data)

    def kill(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass


class LocalWorker:
    """A 'thread': tasks run in the process itself, one at a time."""

    def __init__(self, init=None, initargs=()):
        self.busy = False
        if init is not None:
            init(*initargs)

    def run(self, task):
        fn, args, kw = task
        try:
            return True, fn(*args, **kw)
        except BaseException as e:
            return False, e

    def kill(self):
        pass


class Task:
    def __init__(self, num, payload, on_done):
        self.num, self.payload, self.on_done = num, payload, on_done


class Engine:
    """Scheduler shared by both kinds of pools."""

    def __init__(self, n, threads, init=None, initargs=(), executor=False):
        self.plan = PLAN
        self.threads, self.executor = threads, executor
        self.init, self.initargs = init, initargs
        k = self.plan.created
        self.plan.created += 1
        if k in self.plan.create_fail:
            self.plan.log.append(("create_fail", k))
            raise OSError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        self.plan.pools.add(self)
        self.n = n
        self.plan.max_workers = max(self.plan.max_workers, n)
        self.workers = []
        self.queue = []
        self.inflight = []
        self.tasks = 0
        self.broken = False
        self.down = False
        self.lost = []
        self.plan.log.append(("create", k, n))
        if not executor:
            self.start()

    def start(self):
        if not self.workers:
            cls = LocalWorker if self.threads else Worker
            self.workers = [cls(self.init, self.initargs) for _ in range(self.n)]

    def submit(self, fn, args, kw, on_done):
        self.start()
        num = self.tasks
        self.tasks += 1
        if self.threads:
            payload = (fn, args, kw)
        else:
            try:
                payload = bytes(ForkingPickler.dumps((fn, args, kw)))
            except Exception as e:
                t = Task(num, None, on_done)
                self.inflight.append((None, t, (False, e)))
                return
        self.queue.append(Task(num, payload, on_done))
        # the pool may get some work done while the caller goes on
        while self.plan.ch is not None and not self.plan.fifo and self.actions() \
                and self.plan.ch.bool(0.3):
            self.step()

    def actions(self):
        acts = []
        if self.queue:
            acts += [("start", i) for i, w in enumerate(self.workers) if not w.busy]
        acts += [("finish", i) for i in range(len(self.inflight))]
        return acts

    def step(self):
        acts = self.actions()
        if not acts:
            return False
        what, i = acts[self.plan.choose(len(acts))]
        if what == "start":
            t = self.queue.pop(0)
            w = self.workers[i]
            d = self.plan.dispatched
            self.plan.dispatched += 1
            self.plan.log.append(("start", t.num, i))
            if d in self.plan.kill and not self.threads:
                self.plan.killed += 1
                self.died(t, i)
                return True
            w.busy = True
            if d in self.plan.fail:
                self.plan.log.append(("fail", t.num, i))
                res = (False, self.plan.fail[d])
            else:
                res = w.run(t.payload)
                if res is None:
                    self.died(t, i)
                    return True
            self.inflight.append((i, t, res))
        else:
            wi, t, res = self.inflight.pop(i)
            if wi is not None:
                self.workers[wi].busy = False
            self.plan.log.append(("finish", t.num))
            t.on_done(*res)
        return True

    def died(self, t, i):
        self.plan.log.append(("kill", t.num, i))
        self.workers[i].kill()
        if self.executor:
            self.brk([t])
        else:
            # a real Pool replaces the worker and never learns about the task
            self.lost.append(t)
            self.workers[i] = Worker(self.init, self.initargs)

    def brk(self, extra):
        self.broken = True
        err = cfp.BrokenProcessPool("A process in the process pool was terminated abruptly "
                                    "while the future was running or pending.")
        pend = extra + [t for _, t, _ in self.inflight] + self.queue
        self.inflight, self.queue = [], []
        for w in self.workers:
            w.kill()
        self.workers = []
        for t in pend:
            t.on_done(False, err)

    def pump_until(self, ready, timeout=None):
        while not ready():
            if not self.step():
                if timeout is not None:
                    return False
                raise SimHang("waiting for a task that no worker will ever finish")
        return True

    def drain(self):
        while self.step():
            pass

    def shut(self):
        self.down = True
        self.queue, self.inflight = [], []
        for w in self.workers:
            w.kill()
        self.workers = []

    @property
    def live(self):
        return bool(self.workers) and not self.down and not self.threads

    def __del__(self):
        try:
            self.shut()
        except Exception:
            pass


# ---------------------------------------------------------------- multiprocessing.Pool
class SimAsyncResult:
    def __init__(self, pool, n, callback=None, error_callback=None, single=True):
        self.pool = pool
        self.vals = [None] * n
        self.left = n
        self.err = None
        self.single = single
        self.cb, self.ecb = callback, error_callback

    def _set(self, i, ok, val, width=None):
        if ok:
            if width is None:
                self.vals[i] = val
            else:
                self.vals[i:i + width] = val
                self.left -= width - 1
        elif self.err is None:
            self.err = val
        self.left -= 1
        if self.left <= 0:
            if self.err is None:
                if self.cb:
                    self.cb(self.value())
            elif self.ecb:
                self.ecb(self.err)

    def value(self):
        return self.vals[0] if self.single else self.vals

    def ready(self):
        if self.left > 0:
            self.pool.eng.step()
        return self.left <= 0

    def successful(self):
        if self.left > 0:
            raise ValueError(f"{self!r} not ready")
        return self.err is None

    def wait(self, timeout=None):
        self.pool.eng.pump_until(lambda: self.left <= 0, timeout)

    def get(self, timeout=None):
        if not self.pool.eng.pump_until(lambda: self.left <= 0, timeout):
            raise mp.TimeoutError
        if self.err is not None:
            raise self.err
        return self.value()


def _chunk_run(fn, chunk, star):
    return [fn(*a) if star else fn(a) for a in chunk]


class SimPool:
    _threads = False

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        n = processes if processes is not None else (PLAN.cpus or 1)
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.eng = Engine(int(n), self._threads, initializer, initargs)
        self._state = "RUN"

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        r = SimAsyncResult(self, 1, callback, error_callback)
        self.eng.submit(func, args, kwds, lambda ok, v: r._set(0, ok, v))
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _map(self, func, iterable, chunksize, callback, error_callback, star):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.eng.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        r = SimAsyncResult(self, len(items), callback, error_callback, single=False)
        if not items:
            return r
        for i in range(0, len(items), chunksize):
            chunk = items[i:i + chunksize]
            w = len(chunk)

            def done(ok, v, i=i, w=w):
                if ok:
                    r._set(i, True, v, w)
                else:
                    r.left -= w - 1
                    r._set(i, False, v)
            self.eng.submit(_chunk_run, (func, chunk, star), {}, done)
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, None, None, False).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, callback, error_callback, False)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, None, None, True).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, callback, error_callback, True)

    def _imap(self, func, iterable, ordered):
        self._check()
        done, order = {}, []

        def make(i):
            def cb(ok, v):
                done[i] = (ok, v)
                order.append(i)
            return cb
        n = 0
        for i, item in enumerate(iterable):
            self.eng.submit(func, (item,), {}, make(i))
            n += 1

        def gen():
            for k in range(n):
                if ordered:
                    self.eng.pump_until(lambda: k in done)
                    ok, v = done[k]
                else:
                    self.eng.pump_until(lambda: len(order) > k)
                    ok, v = done[order[k]]
                if not ok:
                    raise v
                yield v
        return gen()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, False)

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            # workers finish what is queued and leave
            self.eng.drain()
            self.eng.shut()

    def terminate(self):
        self._state = "TERMINATE"
        self.eng.shut()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimThreadPool(SimPool):
    _threads = True


# ---------------------------------------------------------------- concurrent.futures
class SimFuture(cf.Future):
    _sim_eng = None

    def result(self, timeout=None):
        if not self.done() and self._sim_eng is not None:
            if not self._sim_eng.pump_until(self.done, timeout):
                raise cf.TimeoutError
        return super().result(0 if self.done() else timeout)

    def exception(self, timeout=None):
        if not self.done() and self._sim_eng is not None:
            if not self._sim_eng.pump_until(self.done, timeout):
                raise cf.TimeoutError
        return super().exception(0 if self.done() else timeout)


class SimExecutor(cf.Executor):
    _threads = False

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(),
                 max_tasks_per_child=None, **kw):
        n = max_workers if max_workers is not None else (PLAN.cpus or 1)
        if n <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.eng = Engine(int(n), self._threads, initializer, initargs, executor=True)
        self._closed = False

    def submit(self, fn, /, *args, **kw):
        if self.eng.broken:
            raise cfp.BrokenProcessPool("A child process terminated abruptly, the process pool "
                                        "is not usable anymore")
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture()
        f._sim_eng = self.eng

        def done(ok, v):
            if f.cancelled() or f.done():
                return
            if f.set_running_or_notify_cancel():
                if ok:
                    f.set_result(v)
                else:
                    f.set_exception(v)
        self.eng.submit(fn, args, kw, done)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._closed:
            return
        self._closed = True
        if cancel_futures:
            for t in self.eng.queue:
                t.on_done(False, cf.CancelledError())
            self.eng.queue = []
        self.eng.drain()
        self.eng.shut()


class SimThreadExecutor(SimExecutor):
    _threads = True

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        super().__init__(max_workers or min(32, PLAN.cpus + 4), None, initializer, initargs)


_real_as_completed, _real_wait = cf.as_completed, cf.wait


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    given = []
    while len(given) < len(fs):
        ready = [f for f in fs if f.done() and f not in given]
        if not ready:
            pend = [f for f in fs if not f.done()]
            engs = [getattr(f, "_sim_eng", None) for f in pend]
            if any(e is None for e in engs):
                yield from _real_as_completed(pend, timeout)
                return
            if not any(e.step() for e in engs):
                raise SimHang("as_completed waits for ever")
            continue
        for f in ready:
            given.append(f)
            yield f


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)

    def ok():
        done = [f for f in fs if f.done()]
        if return_when == cf.FIRST_COMPLETED:
            return bool(done)
        if return_when == cf.FIRST_EXCEPTION and any(f.exception(0) for f in done):
            return True
        return len(done) == len(fs)
    while not ok():
        progressed = False
        for f in fs:
            e = getattr(f, "_sim_eng", None)
            if e is None:
                return _real_wait(fs, timeout, return_when)
            if e.step():
                progressed = True
                break
        if not progressed:
            if timeout is not None:
                break
            raise SimHang("wait waits for ever")
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, fs - done)


def install(plan):
    """Puts the seam in place in this simulated process."""
    global PLAN
    PLAN = plan
    cpus = plan.cpus
    os.cpu_count = lambda: cpus
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid=0: set(range(cpus))
    mp.cpu_count = lambda: cpus
    multiprocessing.context.BaseContext.cpu_count = lambda self: cpus

    def ctx_pool(self=None, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    def mp_pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    swaps = [(mp.Pool, mp_pool), (_RealPool, SimPool), (_RealThreadPool, SimThreadPool),
             (_RealPPE, SimExecutor), (_RealTPE, SimThreadExecutor),
             (_real_as_completed, sim_as_completed), (_real_wait, sim_wait)]
    old_mp_pool = mp.Pool
    multiprocessing.context.BaseContext.Pool = ctx_pool
    mp.Pool = mp_pool
    mpp.Pool, mpp.ThreadPool = SimPool, SimThreadPool
    multiprocessing.dummy.Pool = lambda processes=None, initializer=None, initargs=(): \
        SimThreadPool(processes, initializer, initargs)
    cfp.ProcessPoolExecutor, cft.ThreadPoolExecutor = SimExecutor, SimThreadExecutor
    cf.ProcessPoolExecutor, cf.ThreadPoolExecutor = SimExecutor, SimThreadExecutor
    cf.as_completed, cf.wait = sim_as_completed, sim_wait
    # names bound by "from x import y" in the package
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("metcalcpy"):
            continue
        for attr, val in list(vars(mod).items()):
            for a, b in swaps:
                try:
                    same = val is a or (val == a and callable(val) and a is old_mp_pool)
                except Exception:
                    same = False
                if same:
                    setattr(mod, attr, b)
                    break
    return plan


def live_pools(plan):
    gc.collect()
    return sum(1 for e in plan.pools if e.live)
