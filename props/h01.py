"""H01: a job's result does not depend on jobs run earlier in the process."""
import copy
import os

import numpy as np

from sim import fs as simfs, host, rng
from sim.core import Violation
from model import jobs
from . import joblib as jl
from .f01 import diff

BETWEEN = ("nothing", "draws", "statistics", "parsing", "equalizing", "warning")


def prepare():
    jl.prepare()
    import metcalcpy.event_equalize  # noqa: F401
    import metcalcpy.util.read_env_vars_in_config  # noqa: F401
    import metcalcpy.util.ctc_statistics  # noqa: F401
    import metcalcpy.util.sl1l2_statistics  # noqa: F401


def variant(ch, job):
    """A way this job is run in one step: (label, params, files)."""
    how = ch.weighted([(6, "plain"), (2, "new_input"), (2, "same_size"), (1, "bad_params"), (1, "missing_input"),
                       (1, "empty_input"), (2, "io_error")])
    params, files = copy.deepcopy(job["params"]), dict(job["files"])
    key = "sum_stat_input" if "sum_stat_input" in params else "agg_stat_input"
    if how == "new_input":
        lines = files[params[key]].split(b"\n")
        g = np.random.default_rng(ch.seed32())
        keep = [ln for ln in lines[1:-1] if g.random() < 0.7]
        files[params[key]] = b"\n".join([lines[0]] + keep) + b"\n"
    elif how == "same_size":
        # other numbers in as many bytes
        head, body = files[params[key]].split(b"\n", 1)
        k = ch.range(1, 8)
        lines = []
        for ln in body.split(b"\n"):
            left, tab, last = ln.rpartition(b"\t")
            lines.append(left + tab + bytes((c - 48 + k) % 9 + 49 if 48 <= c <= 57 else c
                                            for c in last))
        files[params[key]] = head + b"\n" + b"\n".join(lines)
    elif how == "bad_params":
        victim = ch.pick(["series_val_1", "event_equal", "indy_var", "line_type", "list_stat_1"])
        if ch.bool():
            params.pop(victim, None)
        else:
            params[victim] = ch.pick([None, "nonsense", ["NO_SUCH"]])
    elif how == "missing_input":
        files.pop(params[key])
    elif how == "empty_input":
        files[params[key]] = files[params[key]].split(b"\n")[0] + b"\n"
    return how, params, files


def put(root, files, gone):
    for rel in list(gone) + list(files):
        p = os.path.join(root, rel)
        if os.path.exists(p):
            simfs._real["unlink"](p)
    for rel, data in files.items():
        with simfs._real_open(os.path.join(root, rel), "wb") as f:
            f.write(data)
        # a change is a change even when the time stamp does not show it
        os.utime(os.path.join(root, rel), ns=(0, 10 ** 18))


def get(root, rel):
    p = os.path.join(root, rel)
    if not os.path.exists(p):
        return None
    with simfs._real_open(p, "rb") as f:
        return f.read()


def outcome_of(call):
    try:
        call()
        return ("ok",)
    except SystemExit as e:
        return ("exit", e.code)
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])


def disturb(kind, n):
    if kind == "draws":
        rng.pollute(n)
    elif kind == "statistics":
        import metcalcpy.util.ctc_statistics as c
        import metcalcpy.util.sl1l2_statistics as s
        cols = np.array(["total", "fy_oy", "fy_on", "fn_oy", "fn_on"])
        z = np.array([[0.0, 0, 0, 0, 0]]) if n % 2 else np.array([[4.0, 1, 1, 1, 1]])
        names = ("calculate_fbias", "calculate_fmean", "calculate_gss", "calculate_hss",
                 "calculate_lodds", "calculate_bagss", "calculate_baser")
        getattr(c, names[n % len(names)])(z, cols)
        cols = np.array(["total", "fbar", "obar", "fobar", "ffbar", "oobar"])
        for f in ("calculate_fbar", "calculate_fstdev", "calculate_rmse"):
            getattr(s, f)(np.array([[1.0 + n % 2, 1, 1, 1, 1, 1]]), cols)
    elif kind == "parsing":
        from metcalcpy.util.read_env_vars_in_config import parse_config
        try:
            parse_config(data="a: !ENV ${HOME}\nb: [1, 2]\n" if n % 2 else "a: [1\n")
        except Exception:
            pass
    elif kind == "equalizing":
        import pandas as pd
        from metcalcpy.event_equalize import event_equalize
        d = pd.DataFrame({"fcst_valid_beg": ["a", "a", "b"], "fcst_lead": [1, 1, 1],
                          "model": ["x", "y", "x"]})
        event_equalize(d, "fcst_lead", {"model": ["x", "y"]}, [], [], True, n % 2 == 0)
    elif kind == "warning":
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            warnings.warn("unrelated")


def run(ch, ctx):
    made = [jobs.make_job(ch, f"j{k}") for k in range(ch.range(1, 3))]
    steps = []
    for s in range(ch.range(2, 4)):
        i = ch.int(len(made))
        how, params, files = variant(ch, made[i])
        steps.append({"job": i, "how": how, "params": params, "files": files,
                      "between": ch.weighted([(4, "nothing")] + [(1, b) for b in BETWEEN[1:]]),
                      "n": ch.int(1000), "fault": None})
    together = ch.bool(0.15)
    # what each step gives in a new process
    alone = []
    for st in steps:
        job = made[st["job"]]
        simfs.wipe(ctx.root)
        jobs.lay_out(ctx.root, [])
        put(ctx.root, st["files"], [])
        params = copy.deepcopy(st["params"])
        o = host.run_process(lambda: jobs.run_driver(job["driver"], params), ctx.root)
        jl.no_hang(o, "job alone")
        alone.append((alone_outcome(o), get(ctx.root, job["out"])))
        if st["how"] == "io_error":
            st["fault"] = jl.choose_fault(ch, o.ops)
    # all of them in one process
    simfs.wipe(ctx.root)
    jobs.lay_out(ctx.root, [])
    root = ctx.root
    cell = {}

    def setup(proc):
        cell["fs"] = proc.fs

    def body():
        f = cell["fs"]
        res = []
        opened = {}
        if together:
            for k, st in enumerate(steps):
                put(root, st["files"], made[st["job"]]["files"])
                try:
                    opened[k] = jobs.open_driver(made[st["job"]]["driver"],
                                                 copy.deepcopy(st["params"]))
                except Exception:
                    pass
        for k, st in enumerate(steps):
            job = made[st["job"]]
            try:
                disturb(st["between"], st["n"])
            except Exception:
                pass
            put(root, st["files"], list(job["files"]) + [job["out"]])
            params = copy.deepcopy(st["params"])
            f.plan, f.sticky = {}, None
            if st["fault"] is not None:
                n, flt = st["fault"]
                f.plan = {len(f.ops) + n: flt}
            if k in opened:
                oc = outcome_of(opened[k])
            else:
                oc = outcome_of(lambda: jobs.run_driver(job["driver"], params))
            f.plan, f.sticky = {}, None
            res.append((oc, get(root, job["out"])))
        return res

    out = host.run_process(body, ctx.root, setup=setup)
    jl.no_hang(out, "sequence of jobs")
    if out.status != "ok":
        raise Violation("process ended", repr(out) + out.trace[-500:])
    jl.note_faults(ctx, out)
    label = [(made[s["job"]]["driver"], s["how"], s["between"]) for s in steps]
    ctx.log("steps", label, together, [a[0] for a in alone], out.fired)
    ctx.count("jobs_run", 2 * len(steps))
    ctx.nontrivial = True
    ctx.sample = {"steps": label, "together": together, "outcomes": [a[0] for a in alone]}
    for k in range(1, len(label)):
        ctx.state(label[k - 1][0], label[k - 1][1], alone[k - 1][0][:2], label[k], alone[k][0][:2])
    for k, (oc, data) in enumerate(out.value):
        if steps[k]["fault"] is not None and not together:
            if any(f[3] != "short" for f in out.fired):
                continue
        want, wdata = alone[k]
        what = f"step {k + 1} {label[k]} after {label[:k]}"
        if steps[k]["fault"] is not None:
            continue
        if oc[0] != want[0] or (oc[0] == "exc" and oc[1] != want[1]):
            raise Violation("outcome depends on earlier jobs",
                            f"{what}: {oc} instead of {want}")
        if oc[0] == "ok" and data != wdata:
            raise Violation("output depends on earlier jobs", f"{what}: {diff(wdata, data)}")


def alone_outcome(o):
    if o.status == "ok":
        return ("ok",)
    if o.status == "exit":
        return ("exit", o.code)
    return ("exc", o.exc[0], o.exc[1][:200])
