"""B02 at the level of jobs: the limits a job writes are percentiles of resamples of its data."""
from sim.core import Discard, Violation
from model import jobs, limits, reference
from . import joblib as jl
from .b01_jobs import DRIVERS, under


def shorten(p):
    """Probability statistics take so long that a job may only ask for a few of them."""
    for axis in "12":
        p["derived_series_" + axis] = []
        p["series_val_" + axis] = {k: v[:1] for k, v in p["series_val_" + axis].items()}
        p["fcst_var_val_" + axis] = {k: v[:1] for k, v in p["fcst_var_val_" + axis].items()}
        p["list_stat_" + axis] = p["list_stat_" + axis][:1]
    p["indy_vals"] = p["indy_vals"][:1]


def run(ch, ctx):
    job = jobs.make_job(ch, "a", drivers=DRIVERS, boot=True, ee="False" if ch.bool(0.7) else None,
                        few=True, line_types=list(reference.VALUE_TYPES))
    p = job["params"]
    p["num_iterations"] = iters = ch.pick([300, 500])
    if p.get("line_type") == "pct":
        shorten(p)
        p["num_iterations"] = iters = 300
    p["alpha"] = ch.pick([0.05, 0.1, 0.9, 0.4])
    p["num_threads"] = ch.pick([1, 2, 4])
    log, res = under(ctx, job, ch, 4, ch.seed32(), fifo=True)
    oc, data, _ = res[0]
    ctx.log("job", jl.tag(job), p["alpha"], p["num_threads"], iters, oc)
    if oc[0] == "hang":
        raise Violation("hang", f"{job['driver']}: {oc[1]}")
    if oc[0] != "ok":
        raise Discard
    jl.check_reference(job, data)
    bad, done = limits.problems(job, data, iters)
    ctx.count("job_limits", done)
    ctx.nontrivial = done > 0
    ctx.state("job", job["driver"], p.get("line_type"), p["alpha"], p["num_threads"], done)
    ctx.sample = {"job": jl.tag(job), "alpha": p["alpha"], "limits_compared": done}
    if bad:
        raise Violation("limits of a job", f"{job['driver']}: {bad[0]} ({len(bad)} in all)")
