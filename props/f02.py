"""F02: jobs touch no file but their own output, and recover by a plain rerun."""
import os

from sim import fs, host
from sim.core import Discard, Violation
from model import jobs
from . import joblib as jl
from .f01 import diff

prepare = jl.prepare


def bystanders(ch, job):
    """Other people's files around the job's own."""
    out = job["out"]
    stem = out.rsplit(".", 1)[0]
    files = {"out/other.txt": b"keep\tme\n1\t2\n", stem + "2.txt": b"x\n" * 50,
             stem: b"no extension\n", "in/other.data": b"a\tb\n1\t2\n",
             "in/dataAfterEq": b"not yours\n",
             "dataAfterEq/a.agg_stat_bootstrap": b"a\tb\n",
             "notes.txt": b"notes\n",
             "out/" + job["name"] + ".data": b"same name as the input\n"}
    return {k: files[k] for k in ch.subset(sorted(files), 0.6)}


def run(ch, ctx):
    job = jobs.make_job(ch, "a")
    if ch.bool(0.4):
        job = odd_names(ch, job)
    script = ch.bool(0.15)
    if script:
        job = jobs.with_yaml(job)
    buf = jl.bufsize(ch)
    around = bystanders(ch, job)
    jl.lay(ctx.root, [job], around)
    before = fs.snapshot(ctx.root)
    out0 = host.run_process(jl.body(job, script), ctx.root, bufsize=buf)
    snap0 = fs.snapshot(ctx.root)
    ctx.log("job", jl.tag(job), job["params"].get("agg_stat_input"), script, buf, sorted(around),
            out0.brief())
    jl.no_hang(out0, "undisturbed job")
    own = {job["out"]} | set(job["extra"])
    check_surroundings(before, snap0, own, "undisturbed job", new_ok=not out0.good)
    if not out0.good:
        ctx.count("jobs_failing_undisturbed")
    want = {r: snap0.get(r) for r in own}
    # disturbed attempts, one after another in the same directories
    fs.restore(ctx.root, before)
    attempts = ch.range(1, 3)
    ops = out0.ops
    hit = 0
    for a in range(attempts):
        plan = jl.shorts(ch, ops, 0.15)
        if ch.bool(0.6):
            i, f = jl.choose_crash(ch, ops)
        else:
            i, f = jl.choose_fault(ch, ops)
        plan[i] = f
        out = host.run_process(jl.body(job, script), ctx.root, plan=plan, bufsize=buf)
        jl.note_faults(ctx, out)
        hit += len(out.fired)
        lost = 0
        if out.status == "crash":
            lost = jl.power_loss(ch, ctx.root, out)
            ctx.fault("unsynced_data_lost", lost)
        ctx.log("attempt", a, sorted(plan.items()), out.fired, out.brief(), lost)
        for n, op, rel, kind in out.fired:
            ctx.state(job["driver"], op, kind, rel.split(".")[-1], min(n, 30), a, out.status)
        jl.no_hang(out, f"attempt after {out.fired}")
        snap = fs.snapshot(ctx.root)
        check_surroundings(before, snap, own, f"attempt with {out.fired} ({out.status})",
                           new_ok=not out.good)
    ctx.nontrivial = hit > 0
    ctx.sample = {"job": jl.tag(job), "attempts": attempts, "bystanders": sorted(around),
                  "faults_fired": hit}
    last = host.run_process(jl.body(job, script), ctx.root, bufsize=buf)
    snap = fs.snapshot(ctx.root)
    ctx.log("rerun", last.brief())
    if last.brief() != out0.brief():
        raise Violation("rerun ends differently", f"{last!r} instead of {out0!r}")
    check_surroundings(before, snap, own, "rerun", new_ok=True)
    if out0.good:
        for r in sorted(own):
            if snap.get(r) != want[r]:
                raise Violation("rerun gives another output",
                                f"{job['driver']}: " + diff(want[r], snap.get(r)))


def odd_names(ch, job):
    """Input names without an extension or with the usual substrings, as users choose them."""
    import copy
    job = copy.deepcopy(job)
    key = "agg_stat_input" if "agg_stat_input" in job["params"] else "sum_stat_input"
    old = job["params"][key]
    names = ["in/data", "in/a.agg_stat_bootstrap", "in/dataAfterEq.agg_stat_bootstrap",
             "in/x.data.data", "agg_stat_bootstrap/a.agg_stat_bootstrap"]
    if job["driver"] == "agg_mode":
        names = names[1:3] + names[4:] * 2
    new = ch.pick(names)
    job["params"][key] = new
    job["files"][new] = job["files"].pop(old)
    job["extra"] = companion(job)
    return job


def companion(job):
    p = job["params"]
    if job["driver"] != "agg_mode" or p["event_equal"] not in (True, "True"):
        return []
    head, name = os.path.split(p["agg_stat_input"])
    name = os.path.join(head, name.replace("agg_stat_bootstrap", "dataAfterEq"))
    return [name] if name != p["agg_stat_input"] else []


def check_surroundings(before, after, own, what, new_ok):
    for rel, data in before.items():
        if rel in own:
            continue
        if rel not in after:
            raise Violation("file removed", f"{rel} by {what}")
        if after[rel] != data:
            raise Violation("file changed", f"{rel} by {what}: {diff(data, after[rel])}")
    if not new_ok:
        for rel in after:
            if rel not in before and rel not in own:
                raise Violation("unexpected file", f"{rel} left by {what}")
