"""B01: the result of a parallel bootstrap does not depend on the schedule of the workers."""
from sim.core import Violation
from model import jobs
from . import bootlib as bl


prepare = jobs.load


def run(ch, ctx):
    if ch.bool(0.35):
        from . import b01_jobs
        return b01_jobs.run(ch, ctx)
    c = bl.config(ch, n_min=8)
    c["threads"] = ch.pick([2, 3, 4, 5, 8, -1])
    if c["threads"] == -1:
        c["cpus"] = ch.range(2, 6)
    if c["mode"]:
        c["dtype"] = "cases"
    state = ch.seed32()
    ctx.log("config", sorted(c.items(), key=str))
    a, rec_a = bl.run_boot(ctx, ch, c, fifo=True, rng_state=state)
    b, rec_b = bl.run_boot(ctx, ch, c, rng_state=state)
    ra, rb = a["res"][0], b["res"][0]
    ctx.log("schedule", b["log"])
    ctx.log("results", ra, rb)
    ctx.count("schedule_steps", len(b["log"]))
    W = bl.workers(c)
    ctx.nontrivial = b["log"] != a["log"]
    ctx.fault("reordered_schedule", 1 if b["log"] != a["log"] else 0)
    ctx.state(W, [x for x in b["log"]])
    ctx.sample = {"config": c, "schedule": b["log"][:30],
                  "limits": [rb[1].get("low"), rb[1].get("high")] if rb[0] == "ok" else rb}
    for r in (ra, rb):
        if r[0] != "ok":
            raise Violation("unexpected failure", f"{r} with {c}")
    ra, rb = ra[1], rb[1]
    for k in ("value", "low", "high"):
        if ra[k] != rb[k]:
            raise Violation("schedule dependent " + k,
                            f"{rb[k]} under this schedule, {ra[k]} in order")
    if ra["dist"] != rb["dist"]:
        raise Violation("schedule dependent distribution",
                        f"{(rb['dist'] or [])[:6]}... under this schedule, "
                        f"{(ra['dist'] or [])[:6]}... in order")
    stat = bl.Stat(c["n"], c["kind"], c["none_mod"], None, c["mode"])
    samples = [s for _, _, nd, ss in rec_b if nd == 3 for s in ss]
    mine = [stat.value(s) for s in samples]
    key = lambda v: (v is None, v if v is not None else 0.0)
    if rb["dist"] is None or sorted(map(key, rb["dist"])) != sorted(map(key, mine)):
        raise Violation("resamples lost or repeated",
                        f"{len(rb['dist'] or [])} statistics kept, {len(mine)} computed")
    total = len(samples)
    if not c["iters"] <= total < c["iters"] + W:
        raise Violation("number of resamples",
                        f"{total} for {c['iters']} requested, {W} workers")
    # no two tasks draw the same resamples
    tasks, prev = [], None
    for name, call, nd, ss in rec_b:
        if nd != 3:
            continue
        if prev is None or prev[0] != name or call <= prev[1]:
            tasks.append([])
        tasks[-1] += [tuple(s) for s in ss]
        prev = (name, call)
    # as many resamples as make an accidental match practically impossible
    k = 1
    while c["n"] ** (k * -(-c["n"] // c["block"])) < 10 ** 14:
        k += 1
    starts = [tuple(t[:k]) for t in tasks if len(t) >= k]
    ctx.count("tasks_compared", len(starts))
    if len(set(starts)) != len(starts):
        raise Violation("workers draw the same resamples",
                        f"{len(starts)} tasks, {len(set(starts))} different")
