"""B01 at the level of jobs: a seeded job with several workers under different schedules."""
from sim import host, pool, rng
from sim.core import Discard, Violation
from model import jobs
from . import joblib as jl
from .f01 import diff

DRIVERS = ("agg_stat", "agg_eclv", "agg_mode")


def job_of(ch):
    job = jobs.make_job(ch, "a", drivers=DRIVERS, boot=True, ee=None if ch.bool(0.3) else "False")
    job["params"]["num_threads"] = ch.pick([2, 3, 4, 8, -1])
    return job


def under(ctx, job, ch, cpus, state, attempts=1, **plan):
    """Runs the job with a pool plan; returns the outcome, its value being
    (schedule, [(outcome, output, pools left)])."""
    from .h01 import outcome_of, put, get

    def body():
        p = pool.Plan(ch, cpus=cpus, **plan)
        pool.install(p)
        rng.pollute(state)
        res = []
        for k in range(attempts):
            if k:
                p.kill, p.create_fail, p.fail = set(), set(), {}
                put(ctx.root, job["files"], [job["out"]])
            import copy
            params = copy.deepcopy(job["params"])
            try:
                oc = outcome_of(lambda: jobs.run_driver(job["driver"], params))
            except pool.SimHang as e:
                oc = ("hang", str(e))
            res.append((oc, get(ctx.root, job["out"]), pool.live_pools(p)))
            if oc[0] == "hang":
                break
        return list(p.log), res

    jl.lay(ctx.root, [job])
    out = host.run_process(body, ctx.root, choices=ch)
    jl.no_hang(out, "job with several workers")
    if out.status != "ok":
        raise host.HarnessError(repr(out) + out.trace[-1500:])
    return out.value


def run(ch, ctx):
    job = job_of(ch)
    cpus = ch.range(2, 6)
    log_a, res_a = under(ctx, job, ch, cpus, ch.seed32(), fifo=True)
    log_b, res_b = under(ctx, job, ch, cpus, ch.seed32())
    a, b = res_a[0], res_b[0]
    ctx.log("job", jl.tag(job), job["params"]["num_threads"], cpus, a[0], b[0], log_b)
    ctx.count("schedule_steps", len(log_b))
    if not log_b:
        raise Discard
    ctx.nontrivial = log_a != log_b
    ctx.fault("reordered_schedule", 1 if log_b != log_a else 0)
    ctx.state("job", job["driver"], job["params"]["num_threads"], log_b)
    ctx.sample = {"job": jl.tag(job), "threads": job["params"]["num_threads"],
                  "schedule": log_b[:20]}
    for r in (a, b):
        if r[0][0] == "hang":
            raise Violation("hang", f"{job['driver']}: {r[0][1]}")
        if r[2]:
            raise Violation("workers left behind", f"{r[2]} pools still running after the job")
    if a[0] != b[0]:
        raise Violation("schedule dependent outcome", f"{job['driver']}: {b[0]} and {a[0]}")
    if a[0][0] == "ok":
        if a[1] != b[1]:
            raise Violation("schedule dependent output", f"{job['driver']}: {diff(a[1], b[1])}")
        jl.check_reference(job, b[1])
