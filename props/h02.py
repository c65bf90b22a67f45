"""H02: jobs leave the caller's parameters and input data unchanged."""
import copy

import numpy as np

from sim import host
from sim.core import Violation
from model import jobs
from . import h02_functions, joblib as jl
from .f01 import diff
from .h01 import outcome_of, put, get


def prepare():
    jl.prepare()
    import metcalcpy.event_equalize  # noqa: F401
    import metcalcpy.event_equalize_against_values  # noqa: F401
    import metcalcpy.bootstrap  # noqa: F401
    import metcalcpy.calc_difficulty_index  # noqa: F401
    h02_functions.prepare()


def shape(x):
    """Value with types and order, for exact comparison."""
    if isinstance(x, dict):
        return ("dict", type(x).__name__, [(shape(k), shape(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [shape(v) for v in x])
    return (type(x).__name__, repr(x))


def changed(a, b, path="params"):
    """Where two values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}[{k!r}] is gone"
            d = changed(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}[{k!r}] was added: {b[k]!r}"
    if shape(a) != shape(b):
        return f"{path} changed from {a!r} to {b!r}"
    return None


def run(ch, ctx):
    if ch.bool(0.5):
        return functions(ch, ctx)
    job = jobs.make_job(ch, "a", agg_indy=True if ch.bool(0.3) else None)
    root = ctx.root
    jl.lay(root, [job])
    o0 = host.run_process(jl.body(job), root)
    want = (o0.brief(), get(root, job["out"]))
    jl.no_hang(o0, "job")
    runs = ch.range(1, 3)
    faults = []
    for k in range(runs):
        faults.append(jl.choose_fault(ch, o0.ops) if ch.bool(0.35) else None)
    other = None
    if ch.bool(0.4):
        # the same dictionary is used for another job in between (a caller changes one entry)
        other = ("num_iterations", ch.pick([1, 5]))
        if other[0] not in job["params"]:
            other = None
    jl.lay(root, [job])
    cell = {}

    def body():
        f = cell["fs"]
        params = copy.deepcopy(job["params"])
        res = []
        for flt in faults:
            put(root, job["files"], [job["out"]])
            f.plan, f.sticky = {}, None
            if flt is not None:
                f.plan = {len(f.ops) + flt[0]: flt[1]}
            if other is not None:
                saved = params[other[0]]
                params[other[0]] = other[1]
                keep = copy.deepcopy(params)
                outcome_of(lambda: jobs.run_driver(job["driver"], params))
                d = changed(keep, params)
                if d:
                    res.append((("changed", d), None, None))
                    return res
                params[other[0]] = saved
                put(root, job["files"], [job["out"]])
            keep = copy.deepcopy(params)
            oc = outcome_of(lambda: jobs.run_driver(job["driver"], params))
            res.append((oc, get(root, job["out"]), changed(keep, params)))
        return res

    out = host.run_process(body, root, setup=lambda p: cell.update(fs=p.fs))
    jl.no_hang(out, "job")
    if out.status != "ok":
        raise Violation("process ended", repr(out) + out.trace[-500:])
    jl.note_faults(ctx, out)
    ctx.log("job", jl.tag(job), other, faults, [r[0] for r in out.value])
    ctx.nontrivial = True
    ctx.count("jobs_run", len(out.value))
    ctx.state(*jl.tag(job), [r[0][:2] for r in out.value], [f[1] + f[3] for f in out.fired][:2])
    ctx.sample = {"job": jl.tag(job), "runs": runs, "outcomes": [r[0] for r in out.value]}
    for k, (oc, data, d) in enumerate(out.value):
        if oc[0] == "changed":
            raise Violation("parameters changed", f"{job['driver']}: {oc[1]}")
        if d:
            raise Violation("parameters changed", f"{job['driver']} run {k + 1} ({oc[0]}): {d}")
        if faults[k] is None:
            if oc[0] != want[0][0] or (oc[0] == "ok" and data != want[1]):
                raise Violation("second use differs", f"{job['driver']} run {k + 1}: {oc}, "
                                + diff(want[1], data))


# ---------------------------------------------------------------- functions on shared tables
def same(a, b):
    import pandas as pd
    if isinstance(a, pd.DataFrame):
        if not isinstance(b, pd.DataFrame) or list(a.columns) != list(b.columns) \
                or list(a.index) != list(b.index) or list(a.dtypes) != list(b.dtypes):
            return False
        return a.equals(b)
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and list(a.index) == list(b.index) and a.equals(b)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(((a == b) | ((a != a) & (b != b))).all())
    if type(a).__module__.startswith("xarray"):
        return type(a) is type(b) and a.identical(b)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a).__module__.startswith("metcalcpy"):
        return type(a) is type(b) and same(vars(a) if hasattr(a, "__dict__") else repr(a),
                                           vars(b) if hasattr(b, "__dict__") else repr(b))
    return type(a) is type(b) and a == b


def frame(job):
    import io
    import pandas as pd
    key = "sum_stat_input" if "sum_stat_input" in job["params"] else "agg_stat_input"
    return pd.read_csv(io.BytesIO(job["files"][job["params"][key]]), header=[0], sep="\t")


def calls(ch, job):
    """A list of (label, function(args) -> result, args)."""
    from metcalcpy import event_equalize as ee, event_equalize_against_values as ev
    from metcalcpy.util import utils
    p = job["params"]
    df = frame(job)
    fixed_keys, fixed_vals = [], []
    for k, v in (p.get("fixed_vars_vals_input") or {}).items():
        fixed_keys.append(k)
        fixed_vals.append([x for vals in v.values() for x in vals])
    out = []
    n = ch.range(1, 4)
    kinds = ["equalize", "equalize_job", "axis", "sort", "statistic", "sums", "columns"]
    if "fcst_valid" in df.columns:
        kinds = ["against", "equalize", "sort"]
    for _ in range(n):
        k = ch.pick(kinds)
        if k == "equalize":
            out.append((k, lambda d, s: ee.event_equalize(
                d, p["indy_var"], s, list(fixed_keys), [list(v) for v in fixed_vals], True, False),
                [df, p["series_val_1"]]))
        elif k == "against":
            cases = (df["fcst_valid"].astype(str) + " " + df["fcst_lead"].astype(str)).unique()
            cases = cases[:max(1, len(cases) // 2)] if ch.bool() else cases
            out.append((k, ev.event_equalize_against_values, [df, cases]))
        elif k == "equalize_job":
            out.append((k, lambda d, q: utils.perform_event_equalization(q, d), [df, p]))
        elif k == "axis":
            out.append((k, lambda d, q: utils.equalize_axis_data(
                list(fixed_keys), [list(v) for v in fixed_vals], q, d), [df, p]))
        elif k == "sort":
            out.append((k, lambda d: utils.sort_data(d), [df]))
        elif k == "statistic":
            stat = ch.pick(p["list_stat_1"]).lower()
            from metcalcpy import agg_stat as ag
            out.append((f"{k}:{stat}", lambda *a, n=f"calculate_{stat}": getattr(ag, n)(*a), [df.to_numpy(), df.columns.to_numpy()]))
        elif k == "sums":
            out.append((k, lambda *a: utils.calc_series_sums(*a), [df, p.get("line_type", "sl1l2")]))
        elif k == "columns":
            vals = df.to_numpy()
            out.append((k, lambda *a: utils.sum_column_data_by_name(*a), [vals, df.columns.to_numpy(), "total"]))
    return out


def functions(ch, ctx):
    """Calls on one shared table, against the same calls on tables of their own."""
    family = ch.pick(["tables", "tables", "statistics", "numeric"])
    job = None
    if family == "tables":
        job = jobs.make_job(ch, "a", drivers=("agg_stat", "sum_stat", "ee_series", "ee_cases"),
                            line_types=["sl1l2", "ctc", "grad", "vl1l2"])
    shared = ch.bool(0.7)

    def body():
        import warnings
        if family == "tables":
            todo = calls(ch, job)
        else:
            todo = getattr(h02_functions, family)(ch)
        if not todo or not len(todo[0][2][0]):
            return "empty"
        res = []
        # results on private copies
        private = []
        for label, f, args in todo:
            with warnings.catch_warnings():
                try:
                    private.append(("ok", f(*copy.deepcopy(args))))
                except AttributeError as e:
                    if "module" in str(e):
                        return "empty"
                    private.append(("exc", type(e).__name__, str(e)[:200]))
                except Exception as e:
                    private.append(("exc", type(e).__name__, str(e)[:200]))
        base = [copy.deepcopy(a) for _, _, a in todo]
        for k, (label, f, args) in enumerate(todo):
            if not shared:
                args = copy.deepcopy(args)
            with warnings.catch_warnings():
                try:
                    got = ("ok", f(*args))
                except Exception as e:
                    got = ("exc", type(e).__name__, str(e)[:200])
            for i, (x, y) in enumerate(zip(base[k], args)):
                if not same(x, y):
                    cols = ""
                    if hasattr(y, "columns"):
                        cols = f" (columns now {list(y.columns)[-3:]})"
                    res.append(("argument changed", f"{label}: argument {i + 1}{cols}"))
                    return res
            if got[0] != private[k][0] or not same(got[1], private[k][1]):
                res.append(("result depends on earlier calls", f"{label}: {str(got)[:300]}"))
                return res
            res.append(("fine", label + " " + got[0]))
        return res

    out = host.run_process(body, ctx.root, choices=ch)
    jl.no_hang(out, "function calls")
    if out.status != "ok":
        raise jl.host.HarnessError(repr(out) + out.trace)
    if out.value == "empty":
        raise jl.Discard
    ctx.log("calls", jl.tag(job) if job else family, shared, out.value)
    ctx.nontrivial = True
    ctx.count("function_calls", len(out.value))
    ctx.state("functions", job["driver"] if job else family, shared, out.value)
    ctx.sample = {"functions": out.value, "shared_table": shared}
    for kind, what in out.value:
        if kind != "fine":
            raise Violation(kind, what)
