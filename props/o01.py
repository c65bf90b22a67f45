"""O01: results do not depend on the order in which data rows are delivered."""
import numpy as np

from sim.core import Discard, Violation
from model import jobs
from . import joblib as jl

prepare = jl.prepare

VALUES = {"stat_value", "y_pnt_i", "stat_btcl", "stat_btcu"}
UNSTABLE = ("stat_btcl", "stat_btcu")


def permutation(ch, n):
    """A delivery order of n records."""
    how = ch.pick(["reverse", "shuffle", "rotate", "interleave", "swap", "late"])
    g = np.random.default_rng(ch.seed32())
    idx = list(range(n))
    if how == "reverse":
        idx.reverse()
    elif how == "shuffle":
        idx = [int(i) for i in g.permutation(n)]
    elif how == "rotate" and n:
        k = int(g.integers(n))
        idx = idx[k:] + idx[:k]
    elif how == "interleave":
        k = ch.range(2, 4)
        idx = [i for s in range(k) for i in range(s, n, k)]
    elif how == "swap" and n > 1:
        for _ in range(ch.range(1, 3)):
            i, j = int(g.integers(n)), int(g.integers(n))
            idx[i], idx[j] = idx[j], idx[i]
    elif how == "late" and n:
        # single records arrive much later than the rest
        late = {int(g.integers(n)) for _ in range(3)}
        idx = [i for i in idx if i not in late] + sorted(late)
    return how, idx


def strip(data):
    """Output without the limits of plain series, which may depend on the order of rows of one case.
    The cases of compared series are unique, so with a given seed their limits may not change,
    unless they are groups."""
    header, rows = jobs.parse(data)
    if header is None:
        return data
    drop = [i for i, c in enumerate(header) if c in UNSTABLE]
    mi = header.index("model") if "model" in header else None
    out = []
    for r in [header] + rows:
        if len(r) == len(header):
            groups = any("Group_" in c for c in r)
            if mi is None or "(" not in r[mi] or groups:
                hide = list(drop)
                if groups and any(c.startswith("DIFF_SIG") for c in r):
                    hide.append(header.index("stat_value"))
                r = ["-" if i in hide and r is not header else c for i, c in enumerate(r)]
        out.append("\t".join(r))
    return ("\n".join(out) + "\n").encode()


def run(ch, ctx):
    job = jobs.make_job(ch, "a", derived=True if ch.bool(0.4) else None)
    out0, snap0 = jl.solo(ctx.root, job)
    jl.no_hang(out0, "job")
    if not out0.good:
        raise Discard
    jl.check_reference(job, snap0.get(job["out"]))
    n = len(job["rows"])
    if n < 2:
        raise Discard
    key = "sum_stat_input" if "sum_stat_input" in job["params"] else "agg_stat_input"
    rel = job["params"][key]
    for k in range(ch.range(1, 2)):
        how, idx = permutation(ch, n)
        rows = [job["rows"][i] for i in idx]
        other = dict(job, rows=rows, files=dict(job["files"]))
        other["files"][rel] = jobs.text(job["cols"], rows)
        out, snap = jl.solo(ctx.root, other)
        ctx.log("job", jl.tag(job), how, out.brief())
        jl.no_hang(out, "job")
        moved = sum(1 for a, b in enumerate(idx) if a != b)
        ctx.fault("records_moved", moved)
        ctx.fault("delivery_" + how)
        ctx.nontrivial = ctx.nontrivial or moved > 0
        ctx.state(*jl.tag(job), how, [tuple(job["params"].get("list_stat_1", []))])
        ctx.sample = {"job": jl.tag(job), "records": n, "order": how, "moved": moved}
        if out.brief() != out0.brief():
            raise Violation("outcome depends on order", f"{job['driver']} {how}: {out!r}")
        jl.check_reference(other, snap.get(job["out"]))
        a, b = snap0.get(job["out"]), snap.get(job["out"])
        if (a is None) != (b is None):
            raise Violation("output depends on order", f"{job['driver']} {how}: output missing")
        bad = jl.same_rows(strip(a), strip(b), VALUES) \
            if a is not None else None
        if bad:
            raise Violation("output depends on order", f"{job['driver']} {how}: {bad}")
