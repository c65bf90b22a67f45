"""C01: jobs running at the same time on different outputs do not disturb each other."""
import copy

from sim import fs, host
from sim.core import Discard, Violation
from model import jobs
from . import joblib as jl
from .f01 import diff

prepare = jl.prepare


def twin(ch, job, name):
    """Another job over the same input file."""
    t = copy.deepcopy(job)
    t["name"] = name
    key = "sum_stat_output" if "sum_stat_output" in t["params"] else "agg_stat_output"
    t["params"][key] = t["out"] = f"out/{name}.txt"
    if ch.bool() and "num_iterations" in t["params"]:
        t["params"]["num_iterations"] = 5
        t["boot"] = True
    return t


def run(ch, ctx):
    js = [jobs.make_job(ch, "a")]
    for k in range(ch.range(1, 2)):
        name = "bc"[k]
        if ch.bool(0.5) and not js[0]["extra"]:
            js.append(twin(ch, js[0], name))
        else:
            js.append(jobs.make_job(ch, name))
    script = [ch.bool(0.1) for _ in js]
    js = [jobs.with_yaml(j) if s else j for j, s in zip(js, script)]
    if ch.bool(0.3):
        # names that look alike
        for j, n in zip(js, ("out/x.txt", "out/x.txt.1", "out/x")):
            key = "sum_stat_output" if "sum_stat_output" in j["params"] else "agg_stat_output"
            j["params"][key] = j["out"] = n
            if "yaml" in j:
                j.update(jobs.with_yaml(j))
    buf = jl.bufsize(ch)
    alone = []
    for j, s in zip(js, script):
        jl.lay(ctx.root, js)
        o = host.run_process(jl.body(j, s), ctx.root, bufsize=buf)
        jl.no_hang(o, "job alone")
        alone.append((o, fs.snapshot(ctx.root)))
    jl.lay(ctx.root, js)
    before = fs.snapshot(ctx.root)
    victims = {}
    for k in range(len(js)):
        r = ch.weighted([(6, None), (1, "crash"), (1, "error")])
        if r and alone[k][0].ops and len(victims) < len(js) - 1:
            victims[k] = r
    plans = [None] * len(js)
    crash_at = {}
    for k, r in victims.items():
        if r == "error":
            n, f = jl.choose_fault(ch, alone[k][0].ops)
            plans[k] = {n: f}
        else:
            crash_at[k] = ch.int(len(alone[k][0].ops))
    policy = ch.pick(["uniform", "burst", "alternate"])
    procs = [host.Proc(jl.body(j, s), ctx.root, plan=plans[k], bufsize=buf, interactive=True,
                       name=f"p{k}") for k, (j, s) in enumerate(zip(js, script))]
    order, seen = [], [0] * len(js)
    try:
        waiting = {}
        for k, p in enumerate(procs):
            m = p.step(host.HANG_S)
            if m[0] == "op":
                waiting[k] = m
        last = None
        while waiting:
            ks = sorted(waiting)
            if policy == "burst" and last in waiting and not ch.bool(0.15):
                k = last
            elif policy == "alternate" and len(ks) > 1 and last in waiting:
                k = ch.pick([x for x in ks if x != last])
            else:
                k = ch.pick(ks)
            m = waiting.pop(k)
            order.append((k, m[1], m[2]))
            if crash_at.get(k) == seen[k]:
                procs[k].crash_now()
                ctx.fault("crash@" + m[1])
            else:
                procs[k].go()
            seen[k] += 1
            m = procs[k].step(host.HANG_S)
            if m[0] == "op":
                waiting[k] = m
            last = k
    finally:
        for p in procs:
            if p.outcome is None:
                p.kill()
    snap = fs.snapshot(ctx.root)
    outs = [p.outcome for p in procs]
    for o in outs:
        if o.status == "lost":
            raise host.HarnessError("simulated process vanished")
        jl.note_faults(ctx, o)
    switches = sum(1 for a, b in zip(order, order[1:]) if a[0] != b[0])
    ctx.log("jobs", [jl.tag(j) for j in js], script, buf, policy, sorted(victims.items()))
    ctx.log("order", order, [o.brief() for o in outs])
    ctx.count("operations", len(order))
    ctx.count("context_switches", switches)
    ctx.fault("context_switch", switches)
    ctx.nontrivial = switches > 1
    ctx.state([o[:2] for o in order], [j["driver"] for j in js])
    ctx.sample = {"jobs": [jl.tag(j) for j in js], "policy": policy, "operations": len(order),
                  "switches": switches, "victims": sorted(victims.items()),
                  "start": order[:12]}
    own = set()
    for j in js:
        own |= {j["out"]} | set(j["extra"])
    for k, j in enumerate(js):
        jl.no_hang(outs[k], f"{j['driver']} while others run")
        if k in victims and (outs[k].fired or outs[k].status == "crash"):
            continue
        o, s = alone[k]
        if outs[k].brief() != o.brief():
            raise Violation("other outcome than alone",
                            f"{j['driver']}: {outs[k]!r} instead of {o!r}")
        if o.good:
            for rel in [j["out"]] + j["extra"]:
                if snap.get(rel) != s.get(rel):
                    raise Violation("other output than alone",
                                    f"{j['driver']} {rel}: {diff(s.get(rel), snap.get(rel))}")
    for rel, data in before.items():
        if rel not in own and snap.get(rel) != data:
            raise Violation("input changed", rel)
    if not victims and all(o.good for o in outs):
        for rel in snap:
            if rel not in before and rel not in own:
                raise Violation("file left behind", rel)
