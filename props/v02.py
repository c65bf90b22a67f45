"""V02: every selected XML gets exactly one truthful verdict."""
from sim import fs as simfs
from sim.core import Violation
from . import vlib as vl

prepare = vl.prepare


def run(ch, ctx):
    c = vl.campaign(ch)
    times = ch.weighted([(4, 1), (1, 2)])
    vl.lay(ctx.root, c)
    out = vl.run_tool(ctx.root, c, order=vl.listing(ch), times=times)
    how = [(it["name"], it["how"], it["code"]) for it in c["items"]]
    ctx.log("campaign", how, c["rel"], c["stale"], times, out.brief())
    for it in c["items"]:
        if it["how"] != "identical":
            ctx.fault("plot_" + it["how"])
        if it["code"]:
            ctx.fault("exit_status")
        if it["save_fails"]:
            ctx.fault("diagnostic_image_not_written")
    ctx.count("plots", len(how) * times)
    ctx.nontrivial = True
    ctx.state(sorted(h[1] for h in how), [h[2] for h in how], times)
    ctx.sample = {"plots": how, "outcome": repr(out)}
    if out.status == "hang":
        raise Violation("hang", "validation never ends")
    if not out.good:
        raise Violation("run aborted", f"{out!r} with plots {how}")
    snap = simfs.snapshot(ctx.root)
    for text in out.value[0]:
        got = vl.verdicts(text, c)
        ctx.log("verdicts", sorted(got.items()))
        for it in c["items"]:
            v = got[it["name"]]
            if len(v) != 1:
                raise Violation("not exactly one verdict", f"{it['name']} ({it['how']}): {v}")
            if v[0] != it["verdict"]:
                raise Violation("wrong verdict", f"{it['name']} ({it['how']}): {v[0]}")
    for it in c["items"]:
        if it["verdict"] == "ERROR":
            for rel in vl.artifacts(it):
                if rel not in snap:
                    raise Violation("artifact of a failed plot is gone",
                                    f"{rel} of {it['name']} ({it['how']})")
