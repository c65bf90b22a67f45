"""V03: validation deletes only artifacts of plots that passed."""
import re

from sim import fs as simfs
from sim.core import Violation
from . import vlib as vl

prepare = vl.prepare
OUT = ("out_xml/", "out_plots/", "out_data/", "out_scripts/")


def run(ch, ctx):
    # plots with known outcome classes; names that are prefixes of each other
    c = vl.campaign(ch, n_max=6, outcomes=("identical", "both_missing", "changed", "new_missing",
                                           "orig_missing", "one_pixel", "new_garbage", "new_size"))
    vl.lay(ctx.root, c)
    before = simfs.snapshot(ctx.root)
    plan = None
    if ch.bool(0.2):
        # removing something fails
        plan = {n: {"kind": ch.pick(["EACCES", "EIO"])} for n in range(40) if ch.bool(0.1)}
    out = vl.run_tool(ctx.root, c, order=vl.listing(ch), plan=plan)
    snap = simfs.snapshot(ctx.root)
    how = [(it["name"], it["how"]) for it in c["items"]]
    removed = [rel for kind, rel, _ in out.ops if kind in ("remove", "rename", "truncate")]
    ctx.log("campaign", how, c["rel"], c["stale"], out.brief(), removed, out.fired)
    ctx.count("removals", len(removed))
    for f in out.fired:
        ctx.fault(f"{f[3]}@{f[1]}")
    ctx.fault("failed_plots", sum(1 for it in c["items"] if it["verdict"] == "ERROR"))
    ctx.nontrivial = len(removed) > 0
    ctx.state(sorted(how), c["stale"])
    ctx.sample = {"plots": how, "removed": removed[:10], "outcome": repr(out)}
    if out.status == "hang":
        raise Violation("hang", "validation never ends")
    if not out.good and not out.fired:
        raise Violation("run aborted", f"{out!r} with plots {how}")
    for rel in removed:
        if not rel.startswith(OUT):
            raise Violation("deletes outside its output directories", rel)
    for rel, data in before.items():
        if not rel.startswith(OUT) and snap.get(rel, 0) != data:
            raise Violation("file outside the output directories changed", rel)
    # plots the tool got to: those it started
    ran = [n for _, n in out.value[1]] if out.good else None
    text = out.value[0][0] if out.good else out.stdout
    got = vl.verdicts(text, c)
    for it in c["items"]:
        v = got[it["name"]]
        passed = v == ["SUCCESS"]
        started = f"{it['xml']}" in text
        if passed or not started or not v:
            continue
        for rel in vl.artifacts(it):
            if rel not in snap:
                raise Violation("artifact of another plot deleted",
                                f"{rel} of {it['name']} ({it['how']}), plots {how}")
    # nothing of a passed plot is deleted under another plot's name before its own verdict: what
    # the tool removes after the initial cleaning belongs to plots that passed
    own = set()
    for it in c["items"]:
        if got[it["name"]] == ["SUCCESS"]:
            own |= set(vl.artifacts(it))
    first = next((i for i, (k, rel, _) in enumerate(out.ops)
                  if k == "open_r" and re.match(r"in_xml/.*\.xml$", rel)), len(out.ops))
    for kind, rel, _ in out.ops[first:]:
        if kind == "remove" and rel not in own:
            raise Violation("deletes a file that is no artifact of a passed plot",
                            f"{rel}, plots {how}")
