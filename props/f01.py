"""F01: a job that reports success has written its complete, correct output."""
from sim import fs
from sim.core import Discard, Violation
from model import jobs
from . import joblib as jl

prepare = jl.prepare

STALE = b"model\tstat_value\nOLD\t1.0\nOLD\t2.0\n"


def run(ch, ctx):
    job = jobs.make_job(ch, "a")
    script = ch.bool(0.25)
    if script:
        job = jobs.with_yaml(job)
    buf = jl.bufsize(ch)
    out0, snap0 = jl.solo(ctx.root, job, script, bufsize=buf)
    ctx.log("job", jl.tag(job), script, buf, out0.brief())
    jl.no_hang(out0, "undisturbed job")
    if not out0.good:
        raise Discard
    want = snap0.get(job["out"])
    covered = jl.check_reference(job, want)
    ctx.count("outputs_compared_with_model", int(covered))
    ctx.count("file_operations", len(out0.ops))
    stale = {job["out"]: STALE * ch.range(1, 60)} if ch.bool(0.4) else {}
    how = ch.weighted([(8, "errors"), (1, "missing_input"), (1, "missing_dir"), (2, "short")])
    if how in ("missing_input", "missing_dir"):
        jl.lay(ctx.root, [job], stale if how == "missing_input" else None)
        import os
        if how == "missing_input":
            victim = ch.pick(needed(job, script))
            os.unlink(os.path.join(ctx.root, victim))
        else:
            victim = "out"
            fs.shutil.rmtree(os.path.join(ctx.root, "out"))
            if want is None:
                raise Discard
        out = jl.host.run_process(jl.body(job, script), ctx.root, bufsize=buf)
        ctx.fault(how)
        ctx.log("outcome", how, victim, out.brief())
        ctx.nontrivial = True
        ctx.state(job["driver"], how, out.brief())
        ctx.sample = {"job": jl.tag(job), "fault": [how, victim], "outcome": repr(out)}
        jl.no_hang(out, how)
        if out.good:
            raise Violation("success in spite of failure", f"{job['driver']} with {how} {victim}")
        return
    plan = jl.shorts(ch, out0.ops, 1.0 if how == "short" else 0.25)
    if how == "errors":
        for _ in range(ch.weighted([(4, 1), (1, 2)])):
            i, f = jl.choose_fault(ch, out0.ops)
            plan[i] = f
    out, snap = jl.solo(ctx.root, job, script, extra=stale, plan=plan, bufsize=buf)
    jl.note_faults(ctx, out)
    got = snap.get(job["out"])
    ctx.log("plan", sorted(plan.items()), "fired", out.fired, out.brief())
    ctx.nontrivial = bool(out.fired)
    for n, op, rel, kind in out.fired:
        ctx.state(job["driver"], op, kind, rel.split(".")[-1], min(n, 30), out.status)
    ctx.sample = {"job": jl.tag(job), "faults": out.fired[:4], "outcome": repr(out)}
    jl.no_hang(out, f"after {out.fired}")
    errors = [f for f in out.fired if f[3] != "short"]
    if not errors:
        if not out.good:
            raise Violation("failure without a fault",
                            f"{job['driver']}: {out!r} with short transfers {out.fired}")
        if got != want:
            raise Violation("wrong output after short transfers", diff(want, got))
        return
    if not out.good:
        return
    if got != want:
        raise Violation("success with wrong output",
                        f"{job['driver']} after {errors[0][3]} at {errors[0][1]} of {errors[0][2]}: "
                        + diff(want, got))
    for rel in job["extra"]:
        if snap.get(rel) != snap0.get(rel):
            raise Violation("success with wrong output", f"{job['driver']} companion {rel} after "
                            f"{errors[0][3]} at {errors[0][1]} of {errors[0][2]}: "
                            + diff(snap0.get(rel), snap.get(rel)))
    # the bytes are all there, but a failed write or close that nobody repeated was hidden
    for n, op, rel, kind in errors:
        if op in ("write", "close_w", "open_w", "fsync"):
            later = out.ops[n + 1:]
            if not any(k == "open_w" and r == rel for k, r, _ in later) \
                    and not any(k == "rename" for k, _, _ in later):
                raise Violation("write failure hidden",
                                f"{job['driver']}: {kind} at {op} of {rel} was not reported")


def needed(job, script):
    """Input files without which the job cannot be right."""
    p = job["params"]
    need = [p.get("agg_stat_input") or p.get("sum_stat_input")]
    if job["driver"] in ("ee_cases", "agg_mode") and p["event_equal"] in (True, "True") \
            and job["rows"]:
        need.append(p["agg_stat_input_ee"])
    if script:
        need.append(job["yaml"])
    return need


def diff(want, got):
    if got is None:
        return "no output file"
    if want is None:
        return "an output file where none was expected"
    if want.startswith(got):
        return f"only {len(got)} of {len(want)} bytes"
    a, b = want.decode(errors="replace").split("\n"), got.decode(errors="replace").split("\n")
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"line {i + 1} is {y[:120]!r} instead of {x[:120]!r}"
    return f"{len(b)} lines instead of {len(a)}"
