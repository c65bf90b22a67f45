"""E01: event equalization keeps exactly the cases common to all series."""
import copy

import numpy as np

from sim import host
from sim.core import Discard, Violation
from model import jobs, reference
from . import joblib as jl
from .f01 import diff


def prepare():
    jl.prepare()
    import metcalcpy.event_equalize  # noqa: F401
    import metcalcpy.event_equalize_against_values  # noqa: F401


def deliver(ch, ctx, rows):
    """Loses, repeats and reorders single records. Returns the new list."""
    g = np.random.default_rng(ch.seed32())
    out = list(rows)
    how = []
    if out and ch.bool(0.5):
        k = ch.range(1, 4)
        for _ in range(min(k, len(out) - 1)):
            out.pop(int(g.integers(len(out))))
        how.append("lost")
        ctx.fault("lost_records", k)
    if out and ch.bool(0.3):
        for _ in range(ch.range(1, 2)):
            out.insert(int(g.integers(len(out) + 1)), dict(out[int(g.integers(len(out)))]))
            ctx.fault("repeated_record")
        how.append("repeated")
    if out and ch.bool(0.4):
        out = [out[int(i)] for i in g.permutation(len(out))]
        how.append("reordered")
        ctx.fault("reordered_delivery")
    return out, how


def refile(job, rows):
    key = "sum_stat_input" if "sum_stat_input" in job["params"] else "agg_stat_input"
    job = dict(job, rows=rows, files=dict(job["files"]))
    job["files"][job["params"][key]] = jobs.text(job["cols"], rows)
    return job


def inside(ch, ctx):
    """Equalization inside a job, against the model."""
    job = jobs.make_job(ch, "a", ee="True" if ch.bool() else True,
                        drivers=("agg_stat", "sum_stat", "ee_series", "ee_cases", "agg_mode",
                                 "agg_eclv"))
    rows, how = deliver(ch, ctx, job["rows"])
    job = refile(job, rows)
    out, snap = jl.solo(ctx.root, job)
    jl.no_hang(out, "job")
    ctx.log("inside", jl.tag(job), how, out.brief())
    ctx.state("inside", *jl.tag(job), how, len(rows))
    ctx.sample = {"mode": "inside", "job": jl.tag(job), "records": len(rows), "delivery": how}
    if not out.good:
        # a repeated record makes a derived series ambiguous, which the job reports; so does a
        # record lost for one statistic only
        if job["driver"] in ("agg_stat", "sum_stat", "ee_series", "ee_cases") \
                and reference.possible(job) and nothing_left(job) is False:
            raise Violation("equalization fails", f"{job['driver']}: {out!r}")
        raise Discard
    ctx.nontrivial = True
    jl.check_reference(job, snap.get(job["out"]), "wrong equalization")


def nothing_left(job):
    """No record survives; a job may report that as an error."""
    want = reference.expect(job)
    if job["driver"] in ("agg_stat", "sum_stat"):
        return not reference.equalized_records(job["rows"], job["params"])
    return want is None or not want["rows"]


def table(data):
    """Rows of an equalization output without the case column."""
    h, rows = jobs.parse(data)
    if h is None:
        return None, []
    if "equalize" in h:
        k = h.index("equalize")
        h = h[:k] + h[k + 1:]
        rows = [r[:k] + r[k + 1:] for r in rows]
    return h, rows


def stages(ch, ctx):
    """Stages in separate jobs: equalize, equalize again, aggregate."""
    agg = jobs.agg_stat(ch, "a", single=True, ee="True", agg_indy=False,
                        line_types=["sl1l2", "ctc", "grad", "vl1l2", "sal1l2", "nbr_ctc"])
    rows, how = deliver(ch, ctx, agg["rows"])
    agg = refile(agg, rows)
    p = agg["params"]
    q = {k: copy.deepcopy(p[k]) for k in (
        "agg_stat_input", "indy_var", "indy_vals", "series_val_1", "series_val_2",
        "fcst_var_val_1", "fcst_var_val_2", "fixed_vars_vals_input", "list_stat_1", "list_stat_2")}
    q.update(event_equal="True", agg_stat_output="out/ee.txt")
    ee = {"driver": "ee_series", "name": "ee", "params": q, "out": "out/ee.txt", "boot": False,
          "files": agg["files"], "extra": [], "rows": rows, "cols": agg["cols"]}
    root = ctx.root
    out_in, snap_in = jl.solo(root, agg)
    jl.lay(root, [ee])
    buf = jl.bufsize(ch)
    probe = host.run_process(jl.body(ee), root, bufsize=buf)
    crashes = 0
    if ch.bool(0.3):
        # the first stage dies once or twice and is started again
        jl.lay(root, [ee])
        for _ in range(ch.range(1, 2)):
            i, f = jl.choose_crash(ch, probe.ops)
            o = host.run_process(jl.body(ee), root, plan={i: f}, bufsize=buf)
            jl.note_faults(ctx, o)
            crashes += 1
    o1 = host.run_process(jl.body(ee), root, bufsize=buf)
    snap1 = jl.fs.snapshot(root)
    again = dict(ee, params=dict(copy.deepcopy(q), agg_stat_input="out/ee.txt",
                                 agg_stat_output="out/ee2.txt"))
    o2 = host.run_process(jl.body(again), root)
    snap2 = jl.fs.snapshot(root)
    sep = dict(agg, params=dict(copy.deepcopy(p), agg_stat_input="out/ee.txt",
                                event_equal=ch.pick(["False", "True"]),
                                agg_stat_output="out/sep.txt"))
    o3 = host.run_process(jl.body(sep), root)
    snap3 = jl.fs.snapshot(root)
    for o in (out_in, o1, o2, o3):
        jl.no_hang(o, "stage")
    ctx.log("stages", jl.tag(agg), how, crashes, [o.brief() for o in (out_in, o1, o2, o3)])
    ctx.state("stages", *jl.tag(agg), how, crashes, len(rows))
    ctx.count("stages", 4 + crashes)
    ctx.sample = {"mode": "stages", "job": jl.tag(agg), "records": len(rows), "delivery": how,
                  "crashes": crashes, "outcomes": [repr(o) for o in (out_in, o1, o2, o3)]}
    if not o1.good:
        raise Violation("equalization fails", repr(o1))
    jl.check_reference(ee, snap1["out/ee.txt"], "wrong equalization")
    h1, r1 = table(snap1["out/ee.txt"])
    if not r1:
        return
    ctx.nontrivial = True
    if not o2.good:
        raise Violation("second equalization fails", repr(o2))
    h2, r2 = table(snap2["out/ee2.txt"])
    if (h1, r1) != (h2, r2):
        raise Violation("equalizing again changes the data",
                        f"{len(r1)} rows became {len(r2)}")
    if out_in.brief() != o3.brief():
        raise Violation("separate equalization differs", f"{o3!r} instead of {out_in!r}")
    if out_in.good and snap_in.get("out/a.txt") != snap3.get("out/sep.txt"):
        raise Violation("separate equalization differs",
                        diff(snap_in.get("out/a.txt"), snap3.get("out/sep.txt")))


NAMES = ["M1", "M2", "a b", "12", "7"]
DATES = ["2022-05-01 00:00:00", "2022-05-01 12:00:00", "2022-05-02 00:00:00"]


def direct(ch, ctx):
    """The equalization itself on a table with any kind of series."""
    g = np.random.default_rng(ch.seed32())
    kind = ch.pick(["text", "number", "null", "date"])
    vals = {"text": ["M1", "M2", "a b", "M3"], "number": [12, 7, 0, 30000],
            "null": ["M1", None, "M2"], "date": DATES}[kind][:ch.range(1, 3)]
    masks = ["E", "N"][:ch.range(1, 2)]
    levs = ["P1", "P2"][:ch.range(1, 2)]
    timed = "fcst_valid" if kind != "date" and ch.bool(0.3) else "fcst_valid_beg"
    lose = ch.pick([0.0, 0.15, 0.35])
    rows = []
    for v in vals + ([] if ch.bool(0.7) else ["other" if kind in ("text", "null") else
                                              (99 if kind == "number" else "2023-01-01 00:00:00")]):
        for m in masks:
            for lv in levs:
                for t in range(ch.range(1, 3)):
                    for lead in (0, 60000):
                        if g.random() < lose:
                            continue
                        rows.append({"s": v, timed: DATES[t], "fcst_lead": lead, "vx_mask": m,
                                     "fcst_lev": lv, "x": float(len(rows))})
    if not rows:
        raise Discard
    rows, how = deliver(ch, ctx, rows)
    by_indep = ch.bool()
    indy = ch.pick(["fcst_lead", "vx_mask", "fcst_lev"])
    sval = ["NA" if v is None else str(v) for v in vals]
    if len(sval) > 1 and ch.bool(0.3):
        sval = [":".join(sval[:2])] + sval[2:]
    series = {"s": sval}
    fixed = {}
    if ch.bool(0.3):
        series["vx_mask"] = list(masks)
    elif ch.bool(0.4):
        fixed["vx_mask"] = list(masks) if ch.bool() else masks[:1]
    if ch.bool(0.3):
        fixed["fcst_lev"] = list(levs) if ch.bool() else levs[:1]
    multi = ch.bool()
    label = ch.pick(["range", "shuffled"])

    def body():
        import pandas as pd
        from metcalcpy.event_equalize import event_equalize
        df = pd.DataFrame(rows)
        if label == "shuffled":
            df.index = [int(i) for i in np.random.default_rng(5).permutation(len(df))]
        res = []
        for _ in range(2):
            df = event_equalize(df, indy, copy.deepcopy(series), list(fixed),
                                [list(v) for v in fixed.values()], by_indep, multi)
            res.append([float(x) for x in df["x"]])
        return res

    out = host.run_process(body, ctx.root)
    jl.no_hang(out, "equalization")
    # the model
    perms = [{"s": v} for v in vals]
    for k, vs in list({k: v for k, v in series.items() if k != "s"}.items()) + list(fixed.items()):
        perms = [dict(p, **{k: v}) for p in perms for v in vs]

    def case(r):
        c = (r[timed], r["fcst_lead"])
        return c + ((r[indy],) if by_indep and indy != "fcst_lead" else ())
    common = None
    for p in perms:
        cs = {case(r) for r in rows if all(r[k] == v for k, v in p.items())}
        common = cs if common is None else common & cs
    want = [r["x"] for r in rows if case(r) in common]
    ctx.log("direct", kind, timed, how, by_indep, indy, sorted(series.items()),
            sorted(fixed.items()), multi, label, out.brief(), len(want), len(rows))
    ctx.nontrivial = len(vals) > 1
    ctx.state("direct", kind, len(vals), timed, how, by_indep, indy, len(series), sorted(fixed),
              multi, min(len(want), 5))
    ctx.sample = {"mode": "direct", "series": series, "fixed": fixed, "records": len(rows),
                  "kept": len(want)}
    if out.status != "ok":
        raise Violation("equalization fails", f"{kind} series {series}: {out!r}")
    if out.value[0] != want:
        raise Violation("wrong cases", f"{kind} series {series} fixed {fixed} by {indy} "
                        f"{by_indep}: kept {len(out.value[0])} of {len(rows)} records, "
                        f"expected {len(want)}")
    if out.value[1] != want:
        raise Violation("equalizing again changes the data",
                        f"{len(want)} records became {len(out.value[1])}")


def run(ch, ctx):
    {"inside": inside, "stages": stages, "direct": direct}[
        ch.weighted([(4, "inside"), (3, "stages"), (3, "direct")])](ch, ctx)
