"""L01: a job whose input has what it asks for completes, whatever harmless things happen."""
import random

from sim import clock, fs, host, pool, rng
from sim.core import Choices, Discard, Violation
from model import jobs, reference
from . import joblib as jl
from .r01 import ZONES

prepare = jl.prepare

LEFT = b"model\tstat_value\nOLD\t1.0\n"


def leftovers(ch, job):
    """What earlier jobs may have left: an output, half of one, files of others."""
    out = {}
    how = ch.pick(["none", "output", "cut", "empty", "others"])
    if how == "output":
        out[job["out"]] = LEFT * ch.range(1, 50)
    elif how == "cut":
        out[job["out"]] = LEFT[:-4]
    elif how == "empty":
        out[job["out"]] = b""
    elif how == "others":
        for rel in ("out/b.txt", job["out"] + ".tmp", job["out"] + ".lock", "in/other.data"):
            out[rel] = LEFT
    return how, out


def run(ch, ctx):
    job = jobs.make_job(ch, "a")
    if not reference.possible(job):
        raise Discard
    if job["boot"] and ch.bool(0.3):
        job["params"]["num_threads"] = ch.pick([2, 3, -1])
    script = ch.bool(0.2)
    if script:
        job = jobs.with_yaml(job)
    calm, snap = jl.solo(ctx.root, job, script)
    ctx.log("job", jl.tag(job), script, calm.brief())
    judge(job, calm, snap, "undisturbed")
    left, extra = leftovers(ch, job)
    tz, cpus, t = ch.pick(ZONES), ch.range(1, 6), ch.pick([1.6e9, 0.0, 1.7e9 + 0.9])
    steps = [ch.pick([0.0, 1.0, -3600.0, 86400.0, 1e8]) for _ in range(ch.range(0, 3))]
    tick = ch.pick([0.001, 0.0, -0.25, 900.0])
    schedule, listing, seed = ch.seed32(), ch.seed32(), ch.seed32()
    plan = jl.shorts(ch, calm.ops, 0.7)
    buf = jl.bufsize(ch)

    def setup(proc):
        rng.pollute(seed)
        rng.entropy(seed)
        times = [t]
        for s in steps:
            times.append(times[-1] + s)
        clock.Clock(times, tick).install()
        pool.install(pool.Plan(Choices(seed=schedule), cpus=cpus))

    def order(names):
        names = list(names)
        random.Random(listing).shuffle(names)
        return names

    jl.lay(ctx.root, [job], extra)
    out = host.run_process(jl.body(job, script), ctx.root, setup=setup, plan=plan, bufsize=buf,
                           env={"TZ": tz}, order=order)
    snap = fs.snapshot(ctx.root)
    jl.note_faults(ctx, out)
    ctx.fault("left_" + left, int(left != "none"))
    ctx.fault("clock_steps", len(steps))
    ctx.fault("clock_still", int(tick == 0))
    ctx.fault("clock_backwards", int(tick < 0))
    ctx.fault("other_zone", int(tz != "UTC"))
    ctx.fault("worker_schedules", int(bool(job["params"].get("num_threads", 1) != 1 and job["boot"])))
    ctx.log("outcome", left, tz, cpus, len(out.fired), out.brief())
    ctx.nontrivial = bool(out.fired) or left != "none"
    ctx.state(*jl.tag(job), script, left, min(len(out.fired), 5))
    ctx.sample = {"job": jl.tag(job), "left": left, "short_transfers": len(out.fired),
                  "outcome": repr(out)}
    judge(job, out, snap, f"with {left} left, {len(out.fired)} short transfers, zone {tz}")
    # progress: a transfer that is cut short costs at most one more, smaller buffers the rest
    size = sum(len(d) for d in snap.values() if d)
    bound = 4 * len(calm.ops) + 2 * len(out.fired) + 60 + 4 * size // (buf or 8192)
    if len(out.ops) > bound:
        raise Violation("no progress", f"{job['driver']}: {len(out.ops)} file operations instead "
                        f"of at most {bound}")


def judge(job, out, snap, when):
    jl.no_hang(out, when)
    if not out.good:
        raise Violation("valid job fails", f"{job['driver']} {jl.tag(job)[1]} "
                        f"{job['params'].get('list_stat_1')} {when}: {out!r}")
    jl.check_reference(job, snap.get(job["out"]), f"wrong output {when}")
