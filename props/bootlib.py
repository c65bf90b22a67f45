"""Workload and observation shared by the bootstrap properties."""
import os
import struct

import numpy as np
import pandas as pd

from sim import host, pool, rng
from sim.core import Violation

import metcalcpy.bootstrap as bs

ERRORS = {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
          "ZeroDivisionError": ZeroDivisionError, "KeyError": KeyError, "OSError": OSError,
          "TypeError": TypeError, "FloatingPointError": FloatingPointError}

N_CODE = 12          # largest data size whose resamples fit exactly into a float


def code_of(ids, n):
    c = 0
    for i in reversed(ids):
        c = c * (n + 1) + (i + 1)
    return float(c)


CL = [0.25, 0.5, 0.75]


def vector(v):
    """The numbers that stand for v when the statistic is an economic value."""
    return [v, 1.5, 2.0 - 3.0 * v]


class Stat:
    """A statistic that records every resample it is given.

    Rows carry their own number, so the record shows what was drawn. The records
    go to one file per process: (call, shape) header and the row numbers.
    """

    def __init__(self, n, kind, none_mod=0, fail=None, mode_cases=False, vector=False):
        self.vector = vector            # an economic value: several numbers at once
        self.n, self.kind, self.none_mod = n, kind, none_mod
        self.fail = fail                # (error name, what, k)
        self.mode_cases = mode_cases
        self.calls = 0
        self.owner = None

    def ids_of(self, rows):
        if self.mode_cases:
            flat = np.asarray(rows).flatten()
            return [int(str(x)[1:]) for x in flat if isinstance(x, str) and str(x)[:1] == "c"]
        ids = []
        for r in np.asarray(rows):
            i = int(r[0])
            if len(r) > 1 and float(r[1]) != i * 10 + 0.5:
                i = 10 ** 6             # columns of different rows mixed up
            ids.append(i)
        return ids

    def one(self, rows):
        ids = self.ids_of(rows)
        v = self.value(ids)
        if self.vector and v is not None:
            v = {"V": np.array(vector(v)), "cl": np.array(CL), "vmax": v}
        return ids, v

    def value(self, ids):
        if self.none_mod and (sum(ids) + len(ids)) % self.none_mod == 0:
            return None
        if self.kind == "code":
            return code_of(ids, self.n)
        if self.kind == "mean":
            return sum(ids) / len(ids)
        if self.kind == "max":
            return float(max(ids))
        if self.kind == "spread":
            return float(max(ids) - min(ids))
        if self.kind == "weighted":
            return sum((k + 1) * i for k, i in enumerate(ids)) / 7.0
        return 42.0

    def record(self, call, shape, all_ids):
        fd = os.open(f"rec.{os.getpid()}", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        try:
            out = [struct.pack(">iii", call, shape, len(all_ids))]
            for ids in all_ids:
                out.append(struct.pack(">i", len(ids)) + struct.pack(f">{len(ids)}i", *ids))
            os.write(fd, b"".join(out))
        finally:
            os.close(fd)

    def maybe_fail(self, in_worker, ids):
        if self.fail is None:
            return
        name, what, k = self.fail
        hit = {"call": self.calls == k, "draw": bool(ids) and ids[0] == k,
               "always": True}[what]
        if in_worker and hit:
            raise ERRORS[name](f"injected failure ({what} {k})")

    def __call__(self, values):
        values = np.asarray(values)
        self.calls += 1
        if values.ndim == 2:
            ids, v = self.one(values)
            self.record(self.calls, 2, [ids])
            return [v]
        out, rec = [], []
        for row in values:
            ids, v = self.one(row)
            self.maybe_fail(True, ids)
            rec.append(ids)
            out.append([v])
        self.record(self.calls, 3, rec)
        return out


def read_records(root):
    """[(pid, call, ndim, [resample, ...]), ...] in file order; pids renumbered by name."""
    res = []
    for name in sorted(x for x in os.listdir(root) if x.startswith("rec.")):
        with open(os.path.join(root, name), "rb") as f:
            data = f.read()
        p = 0
        while p < len(data):
            call, ndim, m = struct.unpack_from(">iii", data, p)
            p += 12
            samples = []
            for _ in range(m):
                (k,) = struct.unpack_from(">i", data, p)
                p += 4
                samples.append(list(struct.unpack_from(f">{k}i", data, p)))
                p += 4 * k
            res.append((name, call, ndim, samples))
        os.unlink(os.path.join(root, name))
    return res


def make_values(n, cols, dtype):
    a = np.array([[i] + ([i * 10 + 0.5] if cols > 1 else []) + [7.0] * max(0, cols - 2)
                  for i in range(n)], dtype=float)
    return a.astype(object) if dtype == "object" else a


def make_mode(n, rows_per_case, extra):
    """A table of MODE-like objects and the array of cases to sample."""
    cases = np.array([[f"c{i:03d}"] for i in range(n)])
    rec = []
    for i in range(n):
        for k in range(1 + (i % rows_per_case)):
            rec.append({"object_id": f"F{k:03d}", "area": 10.0 * i + k, "case": f"c{i:03d}"})
    for i in range(extra):
        rec.append({"object_id": "X", "area": 1.0, "case": f"z{i:03d}"})
    return pd.DataFrame(rec), cases


def percentile(vals, p):
    s = sorted(float(v) for v in vals)
    h = (len(s) - 1) * p
    lo = int(h)
    if lo + 1 >= len(s):
        return s[-1]
    return s[lo] + (s[lo + 1] - s[lo]) * (h - lo)


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def config(ch, mode=None, big=True, n_min=2):
    """The parameters of one bootstrap call."""
    c = {}
    c["mode"] = ch.bool(0.3) if mode is None else mode
    kind = ch.pick(["code", "mean", "max", "weighted", "spread"])
    if kind == "code":
        c["n"] = ch.range(n_min, N_CODE)
    else:
        c["n"] = ch.range(n_min, 40 if big else 16)
    c["kind"] = kind
    c["cols"] = ch.range(1, 3)
    c["dtype"] = ch.pick(["float", "object"])
    c["iters"] = ch.weighted([(3, ch.range(2, 12)), (3, ch.range(13, 60)), (1, 1), (1, 100)])
    b = ch.weighted([(3, None), (2, 1), (3, 0)])
    c["batch"] = b if b != 0 else ch.range(2, c["iters"] + 3)
    blk = ch.weighted([(3, 1), (3, 0), (2, -1)])
    n = c["n"]
    c["block"] = 1 if blk == 1 else (max(1, int(n ** 0.5)) if blk == 0 else ch.range(1, n))
    c["alpha"] = ch.pick([0.05, 0.1, 0.01, 0.5, 0.32])
    c["threads"] = ch.pick([1, 2, 3, 4, 7, -1])
    c["cpus"] = ch.range(1, 6)
    c["method"] = ch.weighted([(9, "perc"), (1, "none")])
    c["none_mod"] = ch.weighted([(4, 0), (1, 2), (1, 3)])
    c["save"] = ch.bool(0.5)
    c["vector"] = not c["mode"] and ch.bool(0.12)
    if c["vector"]:
        c["method"] = "perc"
    return c


def workers(c):
    t = c["threads"] if c["threads"] != -1 else c["cpus"]
    return max(1, t)


def call(c, stat, vals):
    kw = dict(stat_func=stat, alpha=c["alpha"], num_iterations=c["iters"],
              iteration_batch_size=c["batch"], num_threads=c["threads"], ci_method=c["method"],
              save_data=c["save"], save_distributions=True, block_length=c["block"])
    if c["mode"]:
        r = bs.bootstrap_and_value_mode(vals[0], vals[1], **kw)
    else:
        r = bs.bootstrap_and_value(vals, eclv=True, **kw) if c.get("vector") \
            else bs.bootstrap_and_value(vals, **kw)
    d = r.distributions
    if c.get("vector"):
        num = lambda x: None if x is None else float(x)  # noqa: E731
        seq = lambda x: None if x is None else [num(y) for y in x]  # noqa: E731
        return {"value": None if r.value is None else seq(r.value["V"]),
                "low": seq(r.lower_bound), "high": seq(r.upper_bound),
                "dist": None if d is None else
                [None if x is None else float(x["vmax"])
                 for x in np.asarray(d, dtype=object).flatten()],
                "data": r.values is not None}
    return {"value": getattr(r, "value", None), "low": getattr(r, "lower_bound", None),
            "high": getattr(r, "upper_bound", None),
            "dist": None if d is None else [None if x is None else float(x)
                                            for x in np.asarray(d, dtype=object).flatten()],
            "data": r.values is not None}


def body(c, plan, rng_state, bias=None, fail=None, entropy=1, attempts=(0,)):
    """Runs inside the simulated process: one or more calls, `fail` applies to the first."""
    def fn():
        pool.install(plan)
        rng.entropy(entropy)
        if bias:
            rng.Bias(*bias).install()
        vals = make_mode(c["n"], 3, 0) if c["mode"] else make_values(c["n"], c["cols"], c["dtype"])
        keep = (vals[0].copy(), vals[1].copy()) if c["mode"] else vals.copy()
        res = []
        for k in attempts:
            rng.pollute(rng_state)
            stat = Stat(c["n"], c["kind"], c["none_mod"], fail if k == 0 else None, c["mode"],
                        c.get("vector", False))
            try:
                res.append(("ok", call(c, stat, vals)))
            except pool.SimHang as e:
                res.append(("hang", str(e)))
            except Exception as e:
                res.append(("exc", type(e).__name__, str(e)[:300]))
                e = None
            stat = None
            if plan.kill or plan.create_fail:
                plan.kill, plan.create_fail = set(), set()
            res.append(("live", pool.live_pools(plan)))
        if c["mode"]:
            same = keep[0].equals(vals[0]) and np.array_equal(keep[1], vals[1])
        else:
            same = np.array_equal(keep, vals) and keep.dtype == vals.dtype
        return {"res": res, "same": bool(same), "log": plan.log, "killed": plan.killed}
    return fn


def run_boot(ctx, ch, c, fifo=False, rng_state=0, bias=None, fail=None, kill=(), create_fail=(),
             attempts=(1,), use_choices=True):
    plan = pool.Plan(None if fifo else ch, cpus=c["cpus"], kill=kill, create_fail=create_fail,
                     fifo=fifo)
    out = host.run_process(body(c, plan, rng_state, bias, fail, attempts=attempts), ctx.root,
                           choices=None if fifo else ch, fs=False)
    rec = read_records(ctx.root)
    if out.status == "hang":
        raise Violation("hang", f"bootstrap call did not finish within {host.HANG_S}s")
    if out.status != "ok":
        raise Violation("abnormal end", f"{out!r} {out.trace[-500:]}")
    return out.value, rec
