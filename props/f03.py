"""F03: appending keeps earlier rows and adds exactly the new ones."""
import copy
import os

from sim import fs, host
from sim.core import Violation
from model import jobs
from . import joblib as jl
from .f01 import diff

prepare = jl.prepare

DRIVERS = ("agg_stat", "agg_eclv", "scorecard")
ON, OFF = ("True", True), ("False", False)


def run(ch, ctx):
    outs = ["out/x.txt", "out/y.txt"][:ch.range(1, 2)]
    made, clean = [], []
    for k in range(ch.range(1, 3)):
        j = jobs.make_job(ch, f"j{k}", drivers=DRIVERS)
        j["params"].pop("append_to_file", None)
        o, snap = jl.solo(ctx.root, j)
        if o.good and snap.get(j["out"]) is not None:
            made.append(j)
            clean.append(snap[j["out"]])
    if not made:
        raise jl.Discard
    jl.lay(ctx.root, made)
    state = {}
    if ch.bool(0.4):
        state[outs[0]] = ch.pick([b"model\tstat_value\nOLD\t1.0\n", b"", b"no newline at the end"])
    for rel, d in state.items():
        with open(os.path.join(ctx.root, rel), "wb") as f:
            f.write(d)
    steps = ch.range(2, 6)
    hits = 0
    for s in range(steps):
        i = ch.int(len(made))
        job = copy.deepcopy(made[i])
        target = ch.pick(outs)
        key = "sum_stat_output" if job["driver"] == "scorecard" else "agg_stat_output"
        job["params"][key] = target
        append = ch.bool(0.7)
        flag = ch.pick(ON if append else OFF + (None,))
        if flag is not None:
            job["params"]["append_to_file"] = flag
        script = ch.bool(0.1)
        if script:
            job = jobs.with_yaml(job)
            with open(os.path.join(ctx.root, job["yaml"]), "wb") as f:
                f.write(job["files"][job["yaml"]])
        buf = jl.bufsize(ch)
        plan = {}
        if ch.bool(0.4):
            # dry run for the list of operations
            save = fs.snapshot(ctx.root)
            dry = host.run_process(jl.body(job, script), ctx.root, bufsize=buf)
            fs.restore(ctx.root, save)
            n, f = jl.choose_fault(ch, dry.ops) if ch.bool(0.7) else jl.choose_crash(ch, dry.ops)
            plan[n] = f
        prior = state.get(target)
        out = host.run_process(jl.body(job, script), ctx.root, plan=plan, bufsize=buf)
        jl.note_faults(ctx, out)
        hits += len(out.fired)
        lost = 0
        if out.status == "crash":
            lost = jl.power_loss(ch, ctx.root, out)
            ctx.fault("unsynced_data_lost", lost)
        snap = fs.snapshot(ctx.root)
        now = snap.get(target)
        ctx.log("step", s, job["driver"], target, flag, script, out.fired, out.brief(), lost,
                None if now is None else len(now))
        jl.no_hang(out, "job")
        for rel in outs:
            if rel != target and snap.get(rel) != state.get(rel):
                raise Violation("other output changed", f"{rel} by a job writing {target}")
        rows = clean[i].split(b"\n", 1)[1] if b"\n" in clean[i] else b""
        what = f"{job['driver']} append_to_file={flag!r}"
        if append:
            p = prior or b""
            if out.good:
                if now is None or not now.startswith(p):
                    raise Violation("earlier rows lost", f"{what}: had {len(p)} bytes, "
                                    f"{diff(p + rows, now)}")
                if now != p + rows:
                    raise Violation("wrong rows appended", f"{what}: {diff(p + rows, now)}")
            elif prior is not None:
                if now is None or not now.startswith(prior):
                    raise Violation("failed append damaged the file",
                                    f"{what} ({out!r}): {diff(prior, now)}")
        elif out.good and now != clean[i]:
            raise Violation("file not replaced", f"{what}: {diff(clean[i], now)}")
        state[target] = now
        if now is None:
            state.pop(target)
        ctx.state(job["driver"], flag, prior is None, out.status,
                  [f[1] + f[3] for f in out.fired][:2], s)
    ctx.nontrivial = True
    ctx.count("jobs_run", steps)
    ctx.sample = {"jobs": [j["driver"] for j in made], "steps": steps, "faults_fired": hits,
                  "outputs": outs}
