"""B03 at the level of jobs."""
from sim.core import Discard, Violation
from model import jobs
from . import joblib as jl
from .b01_jobs import job_of, under
from .f01 import diff

ERRORS = {"MemoryError": MemoryError("worker"), "ValueError": ValueError("worker"),
          "OSError": OSError(12, "Cannot allocate memory"), "KeyError": KeyError("worker"),
          "RuntimeError": RuntimeError("worker")}


def run(ch, ctx):
    job = job_of(ch)
    cpus = ch.range(2, 6)
    state = ch.seed32()
    clog, cres = under(ctx, job, ch, cpus, state, fifo=True)
    clean = cres[0]
    starts = sum(1 for e in clog if e[0] == "start")
    creates = sum(1 for e in clog if e[0] == "create")
    if clean[0][0] != "ok" or not starts:
        raise Discard
    kind = ch.pick(["kill", "create", "raise"])
    plan = {}
    if kind == "kill":
        plan["kill"] = {ch.int(starts)}
    elif kind == "create":
        plan["create_fail"] = {ch.int(creates)}
    else:
        err = ch.pick(sorted(ERRORS))
        plan["fail"] = {ch.int(starts): ERRORS[err]}
        if ch.bool(0.2):
            plan["fail"][ch.int(starts)] = ERRORS[err]
    log, res = under(ctx, job, ch, cpus, state, attempts=2, **plan)
    first = res[0]
    fired = [e for e in log if e[0] in ("kill", "create_fail", "fail")]
    ctx.log("job", jl.tag(job), kind, sorted(plan.items(), key=str), [r[0] for r in res], log)
    ctx.nontrivial = bool(fired)
    for e in fired:
        ctx.fault("job_" + {"kill": "worker_killed", "create_fail": "pool_creation_failed",
                            "fail": "worker_error"}[e[0]])
    ctx.state("job", job["driver"], kind, job["params"]["num_threads"], log[:40])
    ctx.sample = {"job": jl.tag(job), "fault": [kind, str(plan)], "outcome": first[0]}
    if first[0][0] == "hang":
        raise Violation("hang", f"{job['driver']} never ends after {kind}: {first[0][1]}")
    if any(r[2] for r in res):
        raise Violation("workers left behind", f"{job['driver']}: pools still running after {kind}")
    if first[0][0] == "ok":
        bad = partial(clean[1], first[1])
        if bad:
            raise Violation("limits from part of the resamples", f"{job['driver']} {kind}: {bad}")
    if res[1][0] != clean[0] or res[1][1] != clean[1]:
        raise Violation("no recovery", f"{job['driver']} again after {kind}: {res[1][0]} "
                        + diff(clean[1], res[1][1]))


def partial(want, got):
    """Limits that are neither those of the undisturbed run nor missing."""
    hw, rw = jobs.parse(want)
    hg, rg = jobs.parse(got)
    if got is None:
        return "success without output"
    if hw != hg or len(rw) != len(rg):
        return f"{len(rg)} rows instead of {len(rw)}"
    lo, hi = hw.index("stat_btcl"), hw.index("stat_btcu")
    for a, b in zip(rw, rg):
        if b[lo] == b[hi] == "NA" and a[lo] != "NA":
            # the failed row; series that depend on it are not resampled either, so that later
            # rows have other draws than in the undisturbed run
            return None
        for k in (lo, hi):
            if b[k] not in ("NA", a[k]):
                return f"limit {b[k]} instead of {a[k]} in {b}"
    return None
