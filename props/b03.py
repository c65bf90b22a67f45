"""B03: a failing worker never yields a result built from part of the work."""
from sim.core import Violation
from model import jobs
from . import bootlib as bl


prepare = jobs.load


def run(ch, ctx):
    if ch.bool(0.3):
        from . import b03_jobs
        return b03_jobs.run(ch, ctx)
    c = bl.config(ch, big=False)
    kind = ch.pick(["raise", "kill", "create", "none"])
    c["threads"] = ch.pick([2, 3, 4, 6]) if kind in ("kill", "create") else \
        ch.pick([1, 2, 3, 4, 6])
    if c["mode"]:
        c["dtype"] = "cases"
    state = ch.seed32()
    fail, kill, create = None, (), ()
    err = ch.pick(sorted(bl.ERRORS))
    W = bl.workers(c)
    if kind == "raise":
        what = ch.pick(["call", "draw", "always"])
        k = ch.range(1, 3) if what == "call" else ch.int(c["n"])
        fail = (err, what, k)
    elif kind == "kill":
        kill = {ch.int(W)}
        if ch.bool(0.3):
            kill.add(ch.int(W))
    elif kind == "create":
        create = {0}
    ctx.log("config", sorted(c.items(), key=str), kind, fail, sorted(kill))
    ctx.fault("planned_" + kind)
    clean, _ = bl.run_boot(ctx, ch, c, fifo=True, rng_state=state)
    v, rec = bl.run_boot(ctx, ch, c, rng_state=state, fail=fail, kill=kill, create_fail=create,
                         attempts=(0, 1))
    ctx.log("schedule", v["log"])
    ctx.log("results", v["res"], clean["res"])
    first, live1, second, live2 = v["res"]
    want = clean["res"][0]
    if want[0] != "ok":
        raise Violation("unexpected failure", f"{want} without any fault, {c}")
    # did a fault really happen?
    bad = [e for e in v["log"] if e[0] in ("kill", "create_fail")]
    ctx.fault("worker_killed", sum(1 for e in bad if e[0] == "kill"))
    ctx.fault("pool_creation_failed", sum(1 for e in bad if e[0] == "create_fail"))
    ctx.nontrivial = first[0] != "ok"
    ctx.state(kind, c["threads"], first[0], [e for e in v["log"]][:40])
    ctx.sample = {"config": c, "fault": [kind, fail, sorted(kill)], "outcome": first[:2],
                  "again": second[0]}
    if first[0] == "hang":
        raise Violation("hang", f"call never returns after {kind}: {first[1]}")
    if first[0] == "ok":
        raised = kind == "raise" and fail_would_fire(fail, rec, c)
        if bad or raised:
            raise Violation("result in spite of failure",
                            f"{kind} {fail} {sorted(kill)} gave value {first[1]['value']} "
                            f"limits {first[1]['low']}, {first[1]['high']}")
        if first[1] != want[1]:
            raise Violation("changed result", f"{first[1]} instead of {want[1]}")
    else:
        ctx.fault("worker_error_" + first[1] if kind == "raise" else "reported_" + first[1])
        if kind == "none" or (kind in ("kill", "create") and not bad):
            raise Violation("unexpected failure", f"{first}")
    if live1[1] or live2[1]:
        raise Violation("workers left behind", f"{live1[1]} pools still running after the call")
    if not v["same"]:
        raise Violation("data modified", "the caller's array was changed")
    if second[0] != "ok":
        raise Violation("no recovery", f"the same call without the failure: {second}")
    if second[1] != want[1]:
        raise Violation("no recovery", f"second call gave other results than an undisturbed one")


def fail_would_fire(fail, rec, c):
    """A failing statistic leaves no record of its batch, so any record of all iterations means it
    did not fire; with 'always' it must."""
    return fail[1] == "always"
