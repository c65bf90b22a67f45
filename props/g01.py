"""G01: a job leaves the process it ran in as it found it."""
import copy
import os

from sim import fs as simfs, host, pool
from sim.core import Choices, Violation
from model import jobs
from . import joblib as jl
from .h01 import prepare as _prepare, put, variant
from .n01 import ZONES


def prepare():
    _prepare()
    import decimal  # noqa: F401
    import locale  # noqa: F401


def children():
    out = []
    for t in os.listdir("/proc/self/task"):
        with simfs._real_open(f"/proc/self/task/{t}/children") as f:
            out += f.read().split()
    return len(out)


def descriptors():
    """Open files, by what they refer to."""
    out = []
    for n in simfs._real["listdir"]("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{n}"))
        except OSError:
            pass        # the listing itself
    return sorted(x.split(":")[0] if x.startswith(("pipe:", "socket:")) else x for x in out
                  if "/proc/" not in x)


def state():
    """What all code of a process shares."""
    import builtins
    import decimal
    import locale
    import logging
    import signal
    import sys
    import threading
    import time
    import warnings
    import numpy as np
    import pandas as pd
    import yaml
    u = os.umask(0)
    os.umask(u)
    root = logging.getLogger()
    opts = {}
    for k in ("mode.chained_assignment", "display.max_rows", "display.max_columns",
              "display.precision", "display.float_format", "display.width", "mode.use_inf_as_na",
              "mode.copy_on_write", "future.infer_string", "compute.use_numexpr",
              "display.max_colwidth"):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                opts[k] = repr(pd.get_option(k))
        except (KeyError, AttributeError):
            pass
    return {"working directory": os.getcwd(),
            "environment": dict(os.environ),
            "open files": descriptors(),
            "child processes": children(),
            "threads": sorted(t.name for t in threading.enumerate()),
            "warning filters": repr(warnings.filters),
            "floating-point errors": repr(np.geterr()),
            "print options": repr(np.get_printoptions()),
            "table options": opts,
            "logging": (root.level, len(root.handlers), root.disabled, logging.root.manager.disable),
            "module path": list(sys.path),
            "arguments": list(sys.argv),
            "file mode mask": u,
            "locale": locale.setlocale(locale.LC_ALL),
            "time zone": time.tzname,
            "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM,
                                                            signal.SIGALRM, signal.SIGCHLD,
                                                            signal.SIGPIPE)],
            "decimal arithmetic": repr(decimal.getcontext().prec) + decimal.getcontext().rounding,
            "standard streams": (sys.stdout is sys.__dict__["stdout"], id(sys.stdout),
                                 id(sys.stderr), id(sys.stdin)),
            "recursion limit": sys.getrecursionlimit(),
            "hooks": (id(sys.excepthook), id(sys.displayhook), id(builtins.open),
                      id(builtins.print)),
            "yaml": sorted((repr(k), repr(v)) for c in (yaml.SafeLoader, yaml.FullLoader)
                           for k, v in c.yaml_constructors.items())}


def run(ch, ctx):
    base = [jobs.make_job(ch, "j%d" % i) for i in range(ch.range(1, 3))]
    steps = []
    for i, job in enumerate(base):
        if job["boot"] and ch.bool(0.3):
            job["params"]["num_threads"] = ch.pick([2, 3])
        how, params, files = variant(ch, job)
        fail = ch.int(12) if how == "io_error" else None
        steps.append((job, how, params, files, fail))
    tz = ch.pick(ZONES)
    schedule = ch.seed32()
    odd = ch.subset(["filters", "floats", "tables", "directory", "mask"], 0.3)
    root = ctx.root
    jl.lay(root, base)

    def body():
        import gc
        import logging
        import warnings
        import numpy as np
        import pandas as pd
        # the application has settings of its own
        logging.getLogger().addHandler(logging.NullHandler())
        if "filters" in odd:
            warnings.filterwarnings("error", category=BytesWarning)
        if "floats" in odd:
            np.seterr(under="raise")
        if "tables" in odd:
            pd.set_option("display.max_rows", 7)
        if "mask" in odd:
            os.umask(0o27)
        out = []
        for job, how, params, files, fail in steps:
            put(root, files, job["files"])
            fs = proc[0].fs
            fs.plan, fs.sticky = {}, None
            if fail is not None:
                fs.plan = {len(fs.ops) + fail: {"kind": "EIO", "frac": 0.5}}
            before = state()
            try:
                jobs.run_driver(job["driver"], copy.deepcopy(params))
                res = "ok"
            except Exception as e:
                res = type(e).__name__
            gc.collect()
            after = state()
            out.append((res, {k: (before[k], after[k]) for k in before if before[k] != after[k]}))
        return out
    proc = [None]

    def setup(p):
        proc[0] = p
        pool.install(pool.Plan(Choices(seed=schedule), cpus=3))
    unset = ["OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_MAX_THREADS",
             "LC_ALL", "LANG", "PYTHONWARNINGS", "METPLUS_BASE", "LOG_LEVEL"]
    o = host.run_process(body, root, setup=setup, env=dict({k: None for k in unset}, TZ=tz))
    jl.note_faults(ctx, o)
    ctx.log("jobs", [(jl.tag(s[0]), s[1], s[4]) for s in steps], tz, odd, o.brief(),
            o.value and [r for r, _ in o.value])
    jl.no_hang(o, "job")
    if o.status != "ok":
        raise Violation("process ends", f"{o!r} {o.trace[-300:]}")
    ctx.fault("failed_job", sum(r != "ok" for r, _ in o.value))
    ctx.fault("own_settings", len(odd))
    ctx.nontrivial = any(r != "ok" for r, _ in o.value) or bool(odd)
    ctx.state(*[(jl.tag(s[0])[:4], s[1]) for s in steps], odd)
    ctx.sample = {"jobs": [(s[0]["driver"], s[1]) for s in steps], "settings": odd}
    for (job, how, *_), (res, diff) in zip(steps, o.value):
        for k, (a, b) in diff.items():
            if isinstance(a, dict):
                a, b = ({x: v for x, v in p.items() if q.get(x, p) != v}
                        for p, q in ((a, b), (b, a)))
            raise Violation("process changed", f"{k} after {job['driver']} ({how}, {res}): "
                            f"{str(a)[:200]} became {str(b)[:200]}")
