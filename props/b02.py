"""B02: limits are percentiles of genuine resamples, for every outcome of the random draws."""
from sim import rng
from sim.core import Violation
from model import jobs
from . import bootlib as bl

prepare = jobs.load


def run(ch, ctx):
    if ch.bool(0.15):
        from . import b02_jobs
        return b02_jobs.run(ch, ctx)
    c = bl.config(ch)
    if c["mode"]:
        # MODE cases are resampled one by one by callers, blocks are allowed all the same
        c["dtype"] = "cases"
    mode = ch.pick(rng.MODES)
    state = ch.seed32()
    bias = (mode, ch.seed32()) if mode != "plain" else None
    ctx.log("config", sorted(c.items(), key=str), mode)
    val, rec = bl.run_boot(ctx, ch, c, rng_state=state, bias=bias)
    res = val["res"][0]
    ctx.count("draw_mode_" + mode)
    ctx.fault("adversarial_draws_" + mode, 1 if bias else 0)
    ctx.log("pool", val["log"])
    ctx.log("result", res)
    if res[0] != "ok":
        raise Violation("unexpected failure", f"{res} with {c}, draws {mode}")
    r = res[1]
    n, W = c["n"], bl.workers(c)
    samples = [s for _, _, nd, ss in rec if nd == 3 for s in ss]
    base = [ss[0] for _, _, nd, ss in rec if nd == 2]
    ctx.count("resamples", len(samples))
    ctx.nontrivial = len(samples) > 0
    ctx.state(c["kind"], n, c["block"], c["batch"] is None, W, mode, c["none_mod"])
    ctx.sample = {"config": c, "draws": mode, "first_resamples": samples[:3],
                  "limits": [r["low"], r["high"]]}

    # the value is the statistic of the data itself
    stat = bl.Stat(n, c["kind"], c["none_mod"], None, c["mode"])
    if c["mode"]:
        frame, _ = bl.make_mode(n, 3, 0)
        whole = [int(x[1:]) for x in frame["case"]]
    else:
        whole = list(range(n))
    want = stat.value(whole)
    if not base or any(b != whole for b in base):
        raise Violation("value not from data", f"statistic called with rows {base[:2]}")
    want_val = want if c["method"] == "perc" else None
    if c["vector"]:
        ok = r["value"] is None if want is None else r["value"] is not None and all(
            map(bl.close, r["value"], bl.vector(want)))
    else:
        ok = bl.close(r["value"], want_val)
    if not ok:
        raise Violation("wrong value", f"value {r['value']} expected {want_val}")

    # every resample is made of rows of the data
    L = c["block"]
    for s in samples:
        if len(s) != n:
            raise Violation("resample size", f"{len(s)} rows instead of {n}: {s}")
        if any(i < 0 or i >= n for i in s):
            raise Violation("foreign row", f"resample {s} of {n} rows")
        if L > 1:
            for k in range(0, n, L):
                blk = s[k:k + L]
                if any((blk[j] + 1) % n != blk[j + 1] for j in range(len(blk) - 1)):
                    raise Violation("block not consecutive",
                                    f"block {blk} at {k} (block length {L}, {n} rows) in {s}")
    total = len(samples)
    if W == 1 and total != c["iters"]:
        raise Violation("number of resamples", f"{total} instead of {c['iters']}")
    if not c["iters"] <= total < c["iters"] + W:
        raise Violation("number of resamples", f"{total} for {c['iters']} iterations, {W} workers")

    # the kept statistics are those of the resamples
    dist = r["dist"]
    mine = [stat.value(s) for s in samples]
    key = lambda v: (v is None, v if v is not None else 0.0)
    if dist is None or sorted(map(key, dist)) != sorted(map(key, mine)):
        raise Violation("distribution", f"kept statistics differ from those of the resamples: "
                        f"{len(dist or [])} kept, {len(mine)} computed")

    # limits
    if c["vector"]:
        return vector_limits(c, r, want, [v for v in mine if v is not None])
    vals = [v for v in mine if v is not None]
    if c["method"] != "perc" or want is None:
        low = high = None
    elif len(set(vals)) == 1:
        low = high = None
    elif not vals:
        low = high = "free"
    else:
        low, high = bl.percentile(vals, c["alpha"] / 2), bl.percentile(vals, 1 - c["alpha"] / 2)
    if low != "free":
        if not (bl.close(r["low"], low) and bl.close(r["high"], high)):
            raise Violation("limits", f"({r['low']}, {r['high']}) expected ({low}, {high}) "
                            f"alpha={c['alpha']} from {len(vals)} statistics")

    # with unbent draws, all rows must be reachable and resamples must repeat rows
    if mode == "plain":
        if L == 1 and total * n >= 40 * n and n >= 2:
            seen = {i for s in samples for i in s}
            if len(seen) != n:
                raise Violation("unreachable row",
                                f"rows {set(range(n)) - seen} never drawn in {total} resamples")
        nb = total * -(-n // L)
        if L > 1 and nb >= 40 * n:
            starts = {s[k] for s in samples for k in range(0, n, L)}
            if len(starts) != n:
                raise Violation("unreachable start", f"blocks never start at "
                                f"{set(range(n)) - starts} in {nb} blocks")
        if L == 1 and n >= 5 and total >= 12 and all(len(set(s)) == n for s in samples):
            raise Violation("without replacement", f"{total} resamples are all permutations")
        if n >= 5 and total >= 12 and len({tuple(s) for s in samples}) == 1:
            raise Violation("constant resample", f"{total} resamples are all {samples[0]}")


def vector_limits(c, r, want, vals):
    """An economic value has a pair of limits for each of its numbers."""
    if want is None:
        if r["low"] is not None or r["high"] is not None:
            raise Violation("limits", f"({r['low']}, {r['high']}) without a value")
        return
    if not vals:
        return
    for j in range(len(bl.CL)):
        col = [bl.vector(v)[j] for v in vals]
        low = high = None
        if len(set(col)) > 1:
            low, high = bl.percentile(col, c["alpha"] / 2), bl.percentile(col, 1 - c["alpha"] / 2)
        if not (bl.close(r["low"][j], low) and bl.close(r["high"][j], high)):
            raise Violation("limits", f"number {j} of an economic value: ({r['low'][j]}, "
                            f"{r['high'][j]}) expected ({low}, {high}) alpha={c['alpha']} from "
                            f"{len(vals)} statistics")
